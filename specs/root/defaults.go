package gltf

import zz "github.com/qmuntal/gltf/zzverif"

// Each OrDefault helper: the stored value bit for bit when it is set, the
// glTF 2.0 default when it is not, and nothing is modified.

func specSet16(v [16]float64) bool {
	for i := 0; i < 16; i++ {
		if v[i] != 0 {
			return true
		}
	}
	return false
}
func specSet4(v [4]float64) bool { return v[0] != 0 || v[1] != 0 || v[2] != 0 || v[3] != 0 }
func specSet3(v [3]float64) bool { return v[0] != 0 || v[1] != 0 || v[2] != 0 }

//verif:prop C19
//verif:contract Node.MatrixOrDefault
func Verif_MatrixOrDefault(n *Node) {
	zz.Requires(n != nil)
	snap := zz.Snapshot().Watch(n)
	old := *n
	m := n.MatrixOrDefault()
	zz.Ensures("C19.matrix.set", func() bool { return !specSet16(old.Matrix) || zz.Same(m, old.Matrix) })
	zz.Ensures("C19.matrix.unset", func() bool {
		return specSet16(old.Matrix) || zz.Same(m, [16]float64{1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1})
	})
	snap.Unchanged("C19.matrix.pure")
}

//verif:prop C19
//verif:contract Node.RotationOrDefault
func Verif_RotationOrDefault(n *Node) {
	zz.Requires(n != nil)
	snap := zz.Snapshot().Watch(n)
	old := *n
	m := n.RotationOrDefault()
	zz.Ensures("C19.rotation.set", func() bool { return !specSet4(old.Rotation) || zz.Same(m, old.Rotation) })
	zz.Ensures("C19.rotation.unset", func() bool { return specSet4(old.Rotation) || zz.Same(m, [4]float64{0, 0, 0, 1}) })
	snap.Unchanged("C19.rotation.pure")
}

//verif:prop C19
//verif:contract Node.ScaleOrDefault
func Verif_NodeScaleOrDefault(n *Node) {
	zz.Requires(n != nil)
	snap := zz.Snapshot().Watch(n)
	old := *n
	m := n.ScaleOrDefault()
	zz.Ensures("C19.scale.set", func() bool { return !specSet3(old.Scale) || zz.Same(m, old.Scale) })
	zz.Ensures("C19.scale.unset", func() bool { return specSet3(old.Scale) || zz.Same(m, [3]float64{1, 1, 1}) })
	snap.Unchanged("C19.scale.pure")
}

//verif:prop C19
//verif:contract Node.TranslationOrDefault
func Verif_TranslationOrDefault(n *Node) {
	zz.Requires(n != nil)
	snap := zz.Snapshot().Watch(n)
	old := *n
	m := n.TranslationOrDefault()
	zz.Ensures("C19.translation", func() bool { return zz.Same(m, old.Translation) || !specSet3(old.Translation) && !specSet3(m) })
	snap.Unchanged("C19.translation.pure")
}

//verif:prop C19
//verif:contract Material.AlphaCutoffOrDefault
func Verif_AlphaCutoffOrDefault(o *Material) {
	zz.Requires(o != nil)
	snap := zz.Snapshot().Watch(o)
	p := o.AlphaCutoff
	v := o.AlphaCutoffOrDefault()
	zz.Ensures("C19.cutoff.set", func() bool { return p == nil || zz.Same(v, *p) })
	zz.Ensures("C19.cutoff.unset", func() bool { return p != nil || v == 0.5 })
	snap.Unchanged("C19.cutoff.pure")
}

//verif:prop C19
//verif:contract NormalTexture.ScaleOrDefault
func Verif_NormalScaleOrDefault(o *NormalTexture) {
	zz.Requires(o != nil)
	snap := zz.Snapshot().Watch(o)
	p := o.Scale
	v := o.ScaleOrDefault()
	zz.Ensures("C19.normal.set", func() bool { return p == nil || zz.Same(v, *p) })
	zz.Ensures("C19.normal.unset", func() bool { return p != nil || v == 1 })
	snap.Unchanged("C19.normal.pure")
}

//verif:prop C19
//verif:contract OcclusionTexture.StrengthOrDefault
func Verif_StrengthOrDefault(o *OcclusionTexture) {
	zz.Requires(o != nil)
	snap := zz.Snapshot().Watch(o)
	p := o.Strength
	v := o.StrengthOrDefault()
	zz.Ensures("C19.strength.set", func() bool { return p == nil || zz.Same(v, *p) })
	zz.Ensures("C19.strength.unset", func() bool { return p != nil || v == 1 })
	snap.Unchanged("C19.strength.pure")
}

//verif:prop C19
//verif:contract PBRMetallicRoughness.MetallicFactorOrDefault
func Verif_MetallicFactorOrDefault(o *PBRMetallicRoughness) {
	zz.Requires(o != nil)
	snap := zz.Snapshot().Watch(o)
	p := o.MetallicFactor
	v := o.MetallicFactorOrDefault()
	zz.Ensures("C19.metallic.set", func() bool { return p == nil || zz.Same(v, *p) })
	zz.Ensures("C19.metallic.unset", func() bool { return p != nil || v == 1 })
	snap.Unchanged("C19.metallic.pure")
}

//verif:prop C19
//verif:contract PBRMetallicRoughness.RoughnessFactorOrDefault
func Verif_RoughnessFactorOrDefault(o *PBRMetallicRoughness) {
	zz.Requires(o != nil)
	snap := zz.Snapshot().Watch(o)
	p := o.RoughnessFactor
	v := o.RoughnessFactorOrDefault()
	zz.Ensures("C19.roughness.set", func() bool { return p == nil || zz.Same(v, *p) })
	zz.Ensures("C19.roughness.unset", func() bool { return p != nil || v == 1 })
	snap.Unchanged("C19.roughness.pure")
}

//verif:prop C19
//verif:contract PBRMetallicRoughness.BaseColorFactorOrDefault
func Verif_BaseColorFactorOrDefault(o *PBRMetallicRoughness) {
	zz.Requires(o != nil)
	snap := zz.Snapshot().Watch(o)
	p := o.BaseColorFactor
	v := o.BaseColorFactorOrDefault()
	zz.Ensures("C19.basecolor.set", func() bool { return p == nil || zz.Same(v, *p) })
	zz.Ensures("C19.basecolor.unset", func() bool { return p != nil || zz.Same(v, [4]float64{1, 1, 1, 1}) })
	snap.Unchanged("C19.basecolor.pure")
}

func init() {
	zz.Register("MatrixOrDefault", Verif_MatrixOrDefault, func(r *zz.R) *Node {
		n := &Node{Matrix: zz.Pick(r, DefaultMatrix, [16]float64{}, [16]float64{3: 2}, [16]float64{15: 1}, [16]float64{0: -1})}
		n.Matrix[r.Intn(16)] = zz.Pick(r, 0.0, 0.0, 1, 0.5, -3)
		return n
	})
	zz.Register("RotationOrDefault", Verif_RotationOrDefault, func(r *zz.R) *Node {
		n := &Node{}
		n.Rotation[r.Intn(4)] = zz.Pick(r, 0.0, 1, -1, 0.5)
		return n
	})
	zz.Register("NodeScaleOrDefault", Verif_NodeScaleOrDefault, func(r *zz.R) *Node {
		n := &Node{}
		n.Scale[r.Intn(3)] = zz.Pick(r, 0.0, 1, -1, 0.5)
		return n
	})
	zz.Register("TranslationOrDefault", Verif_TranslationOrDefault, func(r *zz.R) *Node {
		n := &Node{}
		n.Translation[r.Intn(3)] = zz.Pick(r, 0.0, 1, -1, 0.5)
		return n
	})
	opt := func(r *zz.R) *float64 {
		return zz.Pick(r, nil, Float(0), Float(1), Float(0.5), Float(-1), Float(2), Float(0.25), Float(1e-9))
	}
	zz.Register("AlphaCutoffOrDefault", Verif_AlphaCutoffOrDefault, func(r *zz.R) *Material { return &Material{AlphaCutoff: opt(r)} })
	zz.Register("NormalScaleOrDefault", Verif_NormalScaleOrDefault, func(r *zz.R) *NormalTexture { return &NormalTexture{Scale: opt(r)} })
	zz.Register("StrengthOrDefault", Verif_StrengthOrDefault, func(r *zz.R) *OcclusionTexture { return &OcclusionTexture{Strength: opt(r)} })
	zz.Register("MetallicFactorOrDefault", Verif_MetallicFactorOrDefault, func(r *zz.R) *PBRMetallicRoughness {
		return &PBRMetallicRoughness{MetallicFactor: opt(r), RoughnessFactor: opt(r)}
	})
	zz.Register("RoughnessFactorOrDefault", Verif_RoughnessFactorOrDefault, func(r *zz.R) *PBRMetallicRoughness {
		return &PBRMetallicRoughness{MetallicFactor: opt(r), RoughnessFactor: opt(r)}
	})
	zz.Register("BaseColorFactorOrDefault", Verif_BaseColorFactorOrDefault, func(r *zz.R) *PBRMetallicRoughness {
		p := &PBRMetallicRoughness{}
		if r.Intn(3) > 0 {
			p.BaseColorFactor = &[4]float64{}
			p.BaseColorFactor[r.Intn(4)] = zz.Pick(r, 0.0, 1, 0.5)
		}
		return p
	})
}
