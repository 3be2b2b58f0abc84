package harness

import (
	"math"
	"reflect"
	"strings"
	"unicode"

	"github.com/tg123/phabrik/common"
	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/naming"
	"github.com/tg123/phabrik/transport"
	"pgregory.net/rapid"
)

// short draws
func intn(t *rapid.T, l string, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(t, l) }
func coin(t *rapid.T, l string) bool            { return rapid.Bool().Draw(t, l) }

// oneIn is true once in n, and shrinks to false.
func oneIn(t *rapid.T, l string, n int) bool { return rapid.IntRange(0, n-1).Draw(t, l) == n-1 }
func pick[T any](t *rapid.T, l string, s []T) T {
	return s[rapid.IntRange(0, len(s)-1).Draw(t, l)]
}
func genBytes(t *rapid.T, l string, lo, hi int) []byte {
	return rapid.SliceOfN(rapid.Byte(), lo, hi).Draw(t, l)
}

// NamedTop and friends: Go types with names, embedding and named scalar kinds.
type namedInt int64
type namedStr string
type NamedExpBase struct {
	Id   uint32
	Name namedStr
}
type NamedDeep struct {
	NamedExpBase
	Kind uint8
	Next *NamedExpBase
}
type NamedTop struct {
	NamedDeep
	When  namedInt
	Table map[namedStr]NamedDeep
	List  []*NamedDeep
	Tail  string
}

var namedTypes = map[string]reflect.Type{}

func newOf(d *Desc) reflect.Value { return reflect.New(d.goType("")) }

func addNamed(name string, v any) {
	namedTypes[name] = reflect.TypeOf(v)
}

func init() {
	addNamed("NamedTop", NamedTop{})
	func() { // two types that share a name
		type Twin struct {
			A uint32
			B string
		}
		addNamed("TwinA", Twin{})
	}()
	func() {
		type Twin struct {
			X []string
			A int64
			P *NamedExpBase
			Z bool
		}
		addNamed("TwinB", Twin{})
	}()
	addNamed("FederationPartnerNodeHeader", federation.FederationPartnerNodeHeader{})
	addNamed("PToPHeader", federation.PToPHeader{})
	addNamed("RoutingHeader", federation.RoutingHeader{})
	addNamed("GlobalLease", federation.GlobalLease{})
	addNamed("RoutingToken", federation.RoutingToken{})
	addNamed("Uri", common.Uri{})
	addNamed("GatewayDescription", naming.GatewayDescription{})
	addNamed("ServiceNotification", naming.ServiceNotification{})
	addNamed("MessageId", transport.MessageId{})
}

func namedDesc(name string) *Desc {
	d := descOf(namedTypes[name])
	d.Named = name
	return d
}

type genOpts struct {
	maps  bool
	named bool
	cm    bool
	only  bool // one-sided trailing fields
	refX  bool // type information and padding in objects (reference encoder only)
	cut   bool // trailing fields left out of some objects (reference encoder only)
	nonz  bool
}

// genDesc draws a description of a struct; budget limits the number of nodes.
func genStruct(t *rapid.T, o genOpts, depth int, budget *int, noOnly bool) *Desc {
	d := &Desc{K: "struct"}
	n := intn(t, "fields", 0, 5)
	if depth == 0 && n == 0 {
		n = 1
	}
	for i := 0; i < n; i++ {
		f := genDesc(t, o, depth+1, budget, false)
		if f.K == "struct" && f.Named == "" && oneIn(t, "embed", 4) {
			f.Embed = true
			stripOnly(f)
		}
		d.Fields = append(d.Fields, f)
	}
	if o.only && !noOnly && (depth == 0 || oneIn(t, "onesided", 2)) {
		side := pick(t, "side", []string{"w", "r"})
		if oneIn(t, "embedtail", 3) { // the versions part inside an embedded struct
			e := &Desc{K: "struct", Embed: true}
			for i, k := 0, intn(t, "embedshared", 0, 2); i < k; i++ {
				e.Fields = append(e.Fields, genDesc(t, o, depth+2, budget, false))
			}
			for i, k := 0, intn(t, "embedextra", 1, 2); i < k; i++ {
				f := genDesc(t, o, depth+2, budget, false)
				f.Only = side
				e.Fields = append(e.Fields, f)
			}
			d.Fields = append(d.Fields, e)
		}
		for i, k := 0, intn(t, "extra", 1, 3); i < k; i++ {
			f := genDesc(t, o, depth+1, budget, false)
			f.Only = side
			if f.K == "struct" && f.Named == "" && oneIn(t, "embedextra", 2) {
				f.Embed = true
				stripOnly(f)
			}
			d.Fields = append(d.Fields, f)
		}
	}
	return d
}

// stripOnly removes one-sided fields of an embedded struct (its fields are the embedding struct's).
func stripOnly(d *Desc) {
	var fs []*Desc
	for _, f := range d.Fields {
		if f.Only == "" {
			fs = append(fs, f)
		}
		if f.Embed {
			stripOnly(f)
		}
	}
	d.Fields = fs
}

func genLeafKind(t *rapid.T) string { return pick(t, "kind", leafKinds) }

func genDesc(t *rapid.T, o genOpts, depth int, budget *int, key bool) *Desc {
	*budget--
	if depth > 5 || *budget <= 0 {
		return &Desc{K: genLeafKind(t)}
	}
	c := intn(t, "shape", 0, 19)
	if o.cm && oneIn(t, "custom", 4) {
		return &Desc{K: pick(t, "cm", []string{"cm0", "cm1", "cm2"})}
	}
	switch {
	case c < 10:
		return &Desc{K: genLeafKind(t)}
	case c < 12:
		if key {
			return &Desc{K: genLeafKind(t)}
		}
		return &Desc{K: "ptr", Elem: genDesc(t, o, depth+1, budget, false)}
	case c < 15:
		if key {
			return &Desc{K: genLeafKind(t)}
		}
		e := genDesc(t, o, depth+1, budget, false)
		if e.K == "slice" || e.K == "map" { // not supported
			e = &Desc{K: "ptr", Elem: e}
		}
		return &Desc{K: "slice", Elem: e}
	case c < 17:
		if key || !o.maps {
			return &Desc{K: genLeafKind(t)}
		}
		ko := o
		ko.only, ko.named = false, false
		return &Desc{K: "map", Key: genDesc(t, ko, depth+2, budget, true), Elem: genDesc(t, o, depth+1, budget, false)}
	case c < 18 && o.named && !key && oneIn(t, "named", 3):
		return namedDesc(pick(t, "name", sortedKeys(namedTypes)))
	}
	if key {
		d := &Desc{K: "struct"}
		for i, n := 0, intn(t, "keyfields", 0, 2); i < n; i++ {
			d.Fields = append(d.Fields, genDesc(t, o, depth+1, budget, true))
		}
		return d
	}
	return genStruct(t, o, depth, budget, false)
}

var asciiTable = &unicode.RangeTable{R16: []unicode.Range16{{Lo: 0x20, Hi: 0x7e, Stride: 1}}}

var edgeInts = func() (e []uint64) {
	add := func(v uint64) { e = append(e, v, -v, v-1, -(v - 1), v+1, -(v + 1)) }
	for _, s := range []uint{6, 7, 8, 13, 14, 15, 16, 20, 21, 27, 28, 31, 32, 34, 35, 41, 42, 48, 49, 55, 56, 62, 63} {
		add(1 << s)
	}
	return append(e, 0, 1, ^uint64(0), 2, 127, 128, 255)
}()

func genBits(t *rapid.T, bits int, signed bool) uint64 {
	var v uint64
	switch intn(t, "int", 0, 5) {
	case 0:
		v = 0
	case 1:
		v = uint64(int64(intn(t, "small", -130, 300)))
	case 2, 3:
		v = pick(t, "edge", edgeInts)
	case 4:
		v = rapid.Uint64().Draw(t, "u64")
	case 5: // one bit pattern of some width
		v = rapid.Uint64().Draw(t, "u64") >> uint(intn(t, "shift", 0, 63))
	}
	if signed {
		return uint64(int64(v<<(64-uint(bits))) >> (64 - uint(bits)))
	}
	return v << (64 - uint(bits)) >> (64 - uint(bits))
}

var sampleRunes = []rune{'a', 'Z', '0', ' ', 0, '\n', '.', '_', '/', 'é', 'ß', 0x7FF, 0x800, '日', 0xFFFD, 0xFFFF, 0xD7FF, 0xE000, 0x10000, 0x1F600, 0x10FFFF, 0x2028}

func genString(t *rapid.T, l string) string {
	switch intn(t, l, 0, 11) {
	case 0, 1:
		return ""
	case 2, 3, 4:
		return rapid.StringOfN(rapid.RuneFrom(nil, asciiTable), 0, 12, -1).Draw(t, l)
	case 5, 6, 7:
		return string(rapid.SliceOfN(rapid.SampledFrom(sampleRunes), 1, 8).Draw(t, l))
	case 8, 9:
		s := rapid.StringN(0, 10, -1).Draw(t, l)
		return strings.ToValidUTF8(s, "?")
	case 10:
		n := pick(t, l, []int{62, 63, 64, 65, 127, 128, 129, 255, 256})
		return strings.Repeat(string(pick(t, l, sampleRunes)), n)
	default:
		if oneIn(t, l, 6) {
			return strings.Repeat("x", pick(t, l, []int{8190, 8191, 8192, 8193}))
		}
		return "fabric:/System/" + rapid.StringOfN(rapid.RuneFrom(nil, asciiTable), 0, 6, -1).Draw(t, l)
	}
}

// Negative zero equals zero and may be written as either: it is not generated.
func genFloat64(t *rapid.T) uint64 {
	u := genFloat64Bits(t)
	if u == 1<<63 {
		u = 0
	}
	return u
}

func genFloat32(t *rapid.T) uint64 {
	u := genFloat32Bits(t)
	if u == 1<<31 {
		u = 0
	}
	return u
}

func genFloat64Bits(t *rapid.T) uint64 {
	switch intn(t, "f", 0, 4) {
	case 0:
		return 0
	case 1:
		return math.Float64bits(pick(t, "fe", []float64{1, -1, 0.1, math.Inf(1), math.Inf(-1), math.MaxFloat64, math.SmallestNonzeroFloat64, math.Copysign(0, -1), math.NaN(), 1 << 53}))
	}
	u := rapid.Uint64().Draw(t, "fbits")
	if f := math.Float64frombits(u); f != f {
		u |= 1 << 51 // quiet
	}
	return u
}

func genFloat32Bits(t *rapid.T) uint64 {
	switch intn(t, "f", 0, 4) {
	case 0:
		return 0
	case 1:
		return uint64(math.Float32bits(pick(t, "fe", []float32{1, -1, 0.1, float32(math.Inf(1)), float32(math.Inf(-1)), math.MaxFloat32, math.SmallestNonzeroFloat32, float32(math.Copysign(0, -1)), 16777216})))
	}
	u := rapid.Uint32().Draw(t, "fbits")
	if f := math.Float32frombits(u); f != f {
		u |= 1 << 22
	}
	return uint64(u)
}

func gen128(t *rapid.T) (uint64, uint64) {
	switch intn(t, "id", 0, 4) {
	case 0:
		return 0, 0
	case 1:
		return 0, genBits(t, 64, false)
	case 2:
		return ^uint64(0), ^uint64(0)
	}
	return genBits(t, 64, false), genBits(t, 64, false)
}

// genVal draws a value of d. size limits the number of collection elements.
func genVal(t *rapid.T, d *Desc, o genOpts, size *int, key bool) *Val {
	v := &Val{}
	switch d.K {
	case "bool":
		v.U = genBits(t, 1, false)
	case "i8", "i16", "i32", "i64":
		v.U = genBits(t, bitsOf(d.K), true)
	case "u8", "u16", "u32", "u64":
		v.U = genBits(t, bitsOf(d.K), false)
	case "f32":
		v.U = genFloat32(t)
		if key && isNaN32(v.U) {
			v.U = 0x3f800000
		}
		if key && v.U == 0x80000000 { // -0 equals 0 as a map key
			v.U = 0
		}
	case "f64":
		v.U = genFloat64(t)
		if f := math.Float64frombits(v.U); key && (f != f || f == 0) {
			v.U = 0
		}
	case "str":
		v.S = genString(t, "s")
	case "guid", "nodeid":
		v.U, v.H = gen128(t)
	case "range":
		a, b := &Val{}, &Val{}
		a.U, a.H = gen128(t)
		b.U, b.H = gen128(t)
		v.L = []*Val{a, b}
	case "cm0", "cm1", "cm2":
		v = d.zero()
		if coin(t, "cmnz") {
			for i := range v.L {
				v.L[i].U = genBits(t, 64, false)
			}
		}
	case "ptr":
		*size--
		if *size < 0 || intn(t, "nil", 0, 3) == 0 {
			v.Nil = true
		} else {
			v.L = []*Val{genVal(t, d.Elem, o, size, false)}
		}
	case "slice":
		n := 0
		switch intn(t, "len", 0, 6) {
		case 0:
			v.Nil = true
		case 1:
		case 6:
			if isScalar(d.Elem) && oneIn(t, "long", 2) {
				n = pick(t, "len", []int{63, 64, 65, 127, 128, 200})
				break
			}
			fallthrough
		default:
			n = intn(t, "len", 1, 4)
		}
		if n < 5 && n > *size {
			n = max(0, *size)
		}
		for i := 0; i < n; i++ {
			*size--
			v.L = append(v.L, genVal(t, d.Elem, o, size, false))
		}
	case "map":
		n := intn(t, "len", 0, 4)
		if n == 0 {
			v.Nil = coin(t, "nilmap")
		}
		seen := map[string]bool{}
		for i := 0; i < min(n, *size); i++ {
			*size--
			k := genVal(t, d.Key, o, size, true)
			ks := string(keyBytes(d.Key, k))
			if seen[ks] {
				continue
			}
			seen[ks] = true
			v.L = append(v.L, k, genVal(t, d.Elem, o, size, false))
		}
	case "struct":
		for _, f := range d.Fields {
			v.L = append(v.L, genVal(t, f, o, size, key))
		}
		if o.cut && !key && !d.Embed && oneIn(t, "cut", 3) {
			v.Cut = intn(t, "cutn", 1, 4)
		}
		if o.refX && v.Cut == 0 && !key && !d.Embed {
			if oneIn(t, "ti", 6) {
				v.TI = pick(t, "tilen", []int{1, 2, 17, 63, 64, 200, 255, 256, 300, 5000})
			}
			if oneIn(t, "pad", 6) {
				v.Pad = genBytes(t, "pad", 1, 20)
			}
		}
	default:
		panic("genVal " + d.K)
	}
	return v
}

func isScalar(d *Desc) bool {
	switch d.K {
	case "ptr", "slice", "map", "struct", "str", "cm0", "cm1", "cm2":
		return false
	}
	return true
}

// keyBytes is an injective text of a key value (custom types only by their slots).
func keyBytes(d *Desc, v *Val) []byte {
	var b []byte
	var walk func(d *Desc, v *Val)
	walk = func(d *Desc, v *Val) {
		var e refEncoder
		e.u64(v.U)
		e.u64(v.H)
		e.u32(uint32(len(v.S)))
		e.u8([]byte(v.S)...)
		b = append(b, e.b...)
		for i, x := range v.L {
			fd := d
			if d.K == "struct" {
				fd = d.Fields[i]
			}
			walk(fd, x)
		}
	}
	walk(d, v)
	return b
}

// genProgram draws what a custom type writes.
func genProgram(t *rapid.T) *cmProgram {
	p := &cmProgram{}
	p.Meta = rapid.Byte().Draw(t, "meta") &^ mEmpty
	if p.Meta == mScopeEnd {
		p.Meta = 0x0F
	}
	p.Empty = coin(t, "emptyform")
	n := intn(t, "ops", 0, cmSlots)
	for i := 0; i < n; i++ {
		p.Ops = append(p.Ops, cmOp{K: pick(t, "op", []string{"c", "c", "b1", "b2", "b4", "b8", "bs", "t", "t"}), P: i})
	}
	return p
}

// maskVal keeps the slots of custom types to what their program writes.
func maskVal(d *Desc, v *Val, ps map[string]*cmProgram) {
	if v == nil || v.Nil {
		return
	}
	switch d.K {
	case "cm0", "cm1", "cm2":
		m := make([]uint64, cmSlots)
		for _, op := range ps[d.K].Ops {
			m[op.P] = ps[d.K].mask(op)
		}
		for i := range v.L {
			v.L[i].U &= m[i]
		}
	case "ptr", "slice":
		for _, x := range v.L {
			maskVal(d.Elem, x, ps)
		}
	case "map":
		for i, x := range v.L {
			if i%2 == 0 {
				maskVal(d.Key, x, ps)
			} else {
				maskVal(d.Elem, x, ps)
			}
		}
	case "struct":
		for i, x := range v.L {
			maskVal(d.Fields[i], x, ps)
		}
	}
}

// dedupMaps removes equal keys (masking may have made them equal).
func dedupMaps(d *Desc, v *Val) {
	if v == nil || v.Nil {
		return
	}
	switch d.K {
	case "ptr", "slice":
		for _, x := range v.L {
			dedupMaps(d.Elem, x)
		}
	case "map":
		seen := map[string]bool{}
		var l []*Val
		for i := 0; i+1 < len(v.L); i += 2 {
			k := string(keyBytes(d.Key, v.L[i]))
			if !seen[k] {
				seen[k] = true
				dedupMaps(d.Elem, v.L[i+1])
				l = append(l, v.L[i], v.L[i+1])
			}
		}
		v.L = l
	case "struct":
		for i, x := range v.L {
			dedupMaps(d.Fields[i], x)
		}
	}
}

// depthOf and hasKind describe cases for the non-triviality rules.
func (d *Desc) depth() int {
	m := 0
	for _, c := range append([]*Desc{d.Elem, d.Key}, d.Fields...) {
		if c != nil {
			m = max(m, c.depth())
		}
	}
	return m + 1
}

// nonZero counts the scalar leaves of v that are not zero.
func (v *Val) nonZero() int {
	if v == nil {
		return 0
	}
	n := 0
	if v.U != 0 || v.H != 0 || v.S != "" {
		n = 1
	}
	for _, x := range v.L {
		n += x.nonZero()
	}
	return n
}
