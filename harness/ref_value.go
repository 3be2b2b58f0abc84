package harness

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"unicode/utf16"

	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/serialization"
)

// Desc describes a type of the serialized data model, independently of Go types.
type Desc struct {
	K      string  `json:"k"`           // bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 str guid nodeid range ptr slice map struct cm0..cm2
	Elem   *Desc   `json:"e,omitempty"` // ptr, slice, map value
	Key    *Desc   `json:"y,omitempty"` // map key
	Fields []*Desc `json:"f,omitempty"` // struct
	Embed  bool    `json:"m,omitempty"` // struct field: embedded
	Only   string  `json:"o,omitempty"` // struct field: "w" or "r", only in the writer's or reader's type (trailing)
	Named  string  `json:"n,omitempty"` // a type of the repository, for the Go type
}

// Val is a value of a Desc. Scalars are kept as bits.
type Val struct {
	U   uint64 `json:"u,omitempty"`
	H   uint64 `json:"h,omitempty"` // second half of guid, nodeid; range: list of two
	S   string `json:"s,omitempty"`
	Nil bool   `json:"z,omitempty"` // pointer
	L   []*Val `json:"l,omitempty"` // elements, fields, pointee (1), map: key, value, key, value...
	TI  int    `json:"t,omitempty"` // struct: length of type information to put in its header (reference encoder only)
	Pad []byte `json:"p,omitempty"` // struct: unknown trailing bytes (reference encoder only)
	Cut int    `json:"c,omitempty"` // struct: written by a version with that many fields less at the end (reference encoder only)
}

var leafKinds = []string{"bool", "i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "f32", "f64", "str", "guid", "nodeid", "range"}

var (
	guidType   = reflect.TypeOf(serialization.GUID{})
	nodeIDType = reflect.TypeOf(federation.NodeID{})
	rangeType  = reflect.TypeOf(federation.NodeIdRange{})
)

var basicTypes = map[string]reflect.Type{
	"bool": reflect.TypeOf(false),
	"i8":   reflect.TypeOf(int8(0)), "i16": reflect.TypeOf(int16(0)), "i32": reflect.TypeOf(int32(0)), "i64": reflect.TypeOf(int64(0)),
	"u8": reflect.TypeOf(uint8(0)), "u16": reflect.TypeOf(uint16(0)), "u32": reflect.TypeOf(uint32(0)), "u64": reflect.TypeOf(uint64(0)),
	"f32": reflect.TypeOf(float32(0)), "f64": reflect.TypeOf(float64(0)),
	"str": reflect.TypeOf(""), "guid": guidType, "nodeid": nodeIDType, "range": rangeType,
}

var kindNames = map[reflect.Kind]string{
	reflect.Bool: "bool", reflect.Int8: "i8", reflect.Int16: "i16", reflect.Int32: "i32", reflect.Int64: "i64",
	reflect.Uint8: "u8", reflect.Uint16: "u16", reflect.Uint32: "u32", reflect.Uint64: "u64",
	reflect.Float32: "f32", reflect.Float64: "f64", reflect.String: "str",
}

// metas
const (
	mObject, mPointer      = 0x00, 0x01
	mTrue, mFalse          = 0x42, 0x72
	mDouble, mGuid         = 0x0B, 0x0C
	mString, mStringEmpty  = 0x8D, 0xCD
	mNodeID                = 0x84
	mScopeBegin, mScopeEnd = 0x1F, 0x2F
	mObjectEnd             = 0x3F
	mEmpty, mArray         = 0x40, 0x80
)

var baseMeta = map[string]byte{
	"bool": 0x02, "i8": 0x03, "u8": 0x04, "i16": 0x05, "u16": 0x06, "i32": 0x07, "u32": 0x08, "i64": 0x09, "u64": 0x0A,
	"f32": 0x0B, "f64": 0x0B, "str": 0x0D, "struct": 0x00, "guid": 0x00, "nodeid": 0x00, "range": 0x00, "ptr": 0x01,
	"cm0": 0x00, "cm1": 0x00, "cm2": 0x00,
}

func isStructKind(d *Desc) bool {
	switch d.K {
	case "struct", "guid", "nodeid", "range", "cm0", "cm1", "cm2":
		return true
	}
	return false
}

func bitsOf(k string) int { n, _ := strconv.Atoi(k[1:]); return n }

// goType builds the Go type; side selects which one-sided fields exist ("w", "r", "" for none).
func (d *Desc) goType(side string) reflect.Type {
	if d.Named != "" {
		return namedTypes[d.Named]
	}
	if t := basicTypes[d.K]; t != nil {
		return t
	}
	switch d.K {
	case "cm0", "cm1", "cm2":
		return cmTypes[d.K]
	case "ptr":
		return reflect.PointerTo(d.Elem.goType(side))
	case "slice":
		return reflect.SliceOf(d.Elem.goType(side))
	case "map":
		return reflect.MapOf(d.Key.goType(side), d.Elem.goType(side))
	case "struct":
		var fs []reflect.StructField
		for i, f := range d.Fields {
			if f.Only != "" && f.Only != side {
				continue
			}
			fs = append(fs, reflect.StructField{Name: "F" + strconv.Itoa(i), Type: f.goType(side), Anonymous: f.Embed})
		}
		return reflect.StructOf(fs)
	}
	panic(harnessError("bad desc " + d.K))
}

// descOf derives the description of a type of the repository (or the harness).
func descOf(t reflect.Type) *Desc {
	switch t {
	case guidType:
		return &Desc{K: "guid"}
	case nodeIDType:
		return &Desc{K: "nodeid"}
	case rangeType:
		return &Desc{K: "range"}
	}
	if k, ok := kindNames[t.Kind()]; ok {
		return &Desc{K: k}
	}
	switch t.Kind() {
	case reflect.Pointer:
		return &Desc{K: "ptr", Elem: descOf(t.Elem())}
	case reflect.Slice:
		return &Desc{K: "slice", Elem: descOf(t.Elem())}
	case reflect.Map:
		return &Desc{K: "map", Key: descOf(t.Key()), Elem: descOf(t.Elem())}
	case reflect.Struct:
		d := &Desc{K: "struct"}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if !f.IsExported() {
				panic(harnessError("unexported field in wire type " + t.String()))
			}
			fd := descOf(f.Type)
			fd.Embed = f.Anonymous
			d.Fields = append(d.Fields, fd)
		}
		return d
	}
	panic(harnessError("no desc for " + t.String()))
}

// toGo stores v (of the full description) into rv (of goType(side)).
func (d *Desc) toGo(v *Val, side string, rv reflect.Value) {
	switch d.K {
	case "bool":
		rv.SetBool(v.U != 0)
	case "i8", "i16", "i32", "i64":
		rv.SetInt(int64(v.U))
	case "u8", "u16", "u32", "u64":
		rv.SetUint(v.U)
	case "f32":
		rv.Set(reflect.ValueOf(math.Float32frombits(uint32(v.U))).Convert(rv.Type()))
	case "f64":
		rv.Set(reflect.ValueOf(math.Float64frombits(v.U)).Convert(rv.Type()))
	case "str":
		rv.SetString(v.S)
	case "guid":
		rv.Set(reflect.ValueOf(guidOf(v)))
	case "nodeid":
		rv.Set(reflect.ValueOf(nodeIDOf(v)))
	case "range":
		rv.Set(reflect.ValueOf(federation.NodeIdRange{Begin: nodeIDOf(v.L[0]), End: nodeIDOf(v.L[1])}))
	case "cm0", "cm1", "cm2":
		a := rv.Field(0)
		for i, e := range v.L {
			a.Index(i).SetUint(e.U)
		}
	case "ptr":
		if v.Nil {
			rv.SetZero()
			return
		}
		p := reflect.New(rv.Type().Elem())
		d.Elem.toGo(v.L[0], side, p.Elem())
		rv.Set(p)
	case "slice":
		if v.Nil {
			rv.SetZero()
			return
		}
		s := reflect.MakeSlice(rv.Type(), len(v.L), len(v.L))
		for i, e := range v.L {
			d.Elem.toGo(e, side, s.Index(i))
		}
		rv.Set(s)
	case "map":
		if v.Nil {
			rv.SetZero()
			return
		}
		m := reflect.MakeMap(rv.Type())
		for i := 0; i+1 < len(v.L); i += 2 {
			k := reflect.New(rv.Type().Key()).Elem()
			e := reflect.New(rv.Type().Elem()).Elem()
			d.Key.toGo(v.L[i], side, k)
			d.Elem.toGo(v.L[i+1], side, e)
			m.SetMapIndex(k, e)
		}
		rv.Set(m)
	case "struct":
		j := 0
		for i, f := range d.Fields {
			if f.Only != "" && f.Only != side {
				continue
			}
			f.toGo(v.L[i], side, rv.Field(j))
			j++
		}
	default:
		panic(harnessError("toGo " + d.K))
	}
}

// fromGo reads rv back; fields of the other side come out nil.
func (d *Desc) fromGo(side string, rv reflect.Value) *Val {
	v := &Val{}
	switch d.K {
	case "bool":
		if rv.Bool() {
			v.U = 1
		}
	case "i8", "i16", "i32", "i64":
		v.U = uint64(rv.Int())
	case "u8", "u16", "u32", "u64":
		v.U = rv.Uint()
	case "f32":
		v.U = uint64(math.Float32bits(float32(rv.Float())))
	case "f64":
		v.U = math.Float64bits(rv.Float())
	case "str":
		v.S = rv.String()
	case "guid":
		g := rv.Interface().(serialization.GUID)
		return valOfGUID(g)
	case "nodeid":
		n := rv.Interface().(federation.NodeID)
		return &Val{U: n.Hi, H: n.Lo}
	case "range":
		r := rv.Interface().(federation.NodeIdRange)
		return &Val{L: []*Val{{U: r.Begin.Hi, H: r.Begin.Lo}, {U: r.End.Hi, H: r.End.Lo}}}
	case "cm0", "cm1", "cm2":
		a := rv.Field(0)
		for i := 0; i < a.Len(); i++ {
			v.L = append(v.L, &Val{U: a.Index(i).Uint()})
		}
	case "ptr":
		if rv.IsNil() {
			v.Nil = true
		} else {
			v.L = []*Val{d.Elem.fromGo(side, rv.Elem())}
		}
	case "slice":
		for i := 0; i < rv.Len(); i++ {
			v.L = append(v.L, d.Elem.fromGo(side, rv.Index(i)))
		}
	case "map":
		it := rv.MapRange()
		for it.Next() {
			v.L = append(v.L, d.Key.fromGo(side, it.Key()), d.Elem.fromGo(side, it.Value()))
		}
	case "struct":
		j := 0
		for _, f := range d.Fields {
			if f.Only != "" && f.Only != side {
				v.L = append(v.L, nil)
				continue
			}
			v.L = append(v.L, f.fromGo(side, rv.Field(j)))
			j++
		}
	default:
		panic(harnessError("fromGo " + d.K))
	}
	return v
}

// zero is the zero value of a description.
func (d *Desc) zero() *Val {
	v := &Val{}
	switch d.K {
	case "ptr":
		v.Nil = true
	case "range":
		v.L = []*Val{{}, {}}
	case "cm0", "cm1", "cm2":
		for i := 0; i < cmSlots; i++ {
			v.L = append(v.L, &Val{})
		}
	case "struct":
		for _, f := range d.Fields {
			v.L = append(v.L, f.zero())
		}
	}
	return v
}

// expect turns a written value into what a reader of side "r" must get from a writer of side "w".
func (d *Desc) expect(v *Val) *Val {
	switch d.K {
	case "ptr":
		if v.Nil {
			return v
		}
		return &Val{L: []*Val{d.Elem.expect(v.L[0])}}
	case "slice":
		o := &Val{}
		for _, e := range v.L {
			o.L = append(o.L, d.Elem.expect(e))
		}
		return o
	case "map":
		o := &Val{}
		for i, e := range v.L {
			if i%2 == 0 {
				o.L = append(o.L, d.Key.expect(e))
			} else {
				o.L = append(o.L, d.Elem.expect(e))
			}
		}
		return o
	case "struct":
		n := -1
		if v.Cut > 0 {
			n = max(0, d.flatFields()-v.Cut)
		}
		return d.expectFields(v, &n)
	}
	return v
}

func (d *Desc) expectFields(v *Val, n *int) *Val {
	o := &Val{}
	for i, f := range d.Fields {
		switch {
		case f.Only == "w":
			o.L = append(o.L, nil)
		case f.Only == "r":
			o.L = append(o.L, f.expect(f.zero()))
		case f.Embed && f.K == "struct":
			o.L = append(o.L, f.expectFields(v.L[i], n))
		case *n == 0:
			o.L = append(o.L, f.expect(f.zero()))
		default:
			*n--
			o.L = append(o.L, f.expect(v.L[i]))
		}
	}
	return o
}

func isNaN32(u uint64) bool { f := math.Float32frombits(uint32(u)); return f != f }

// diff compares two values of d; map entries in any order. "" when equal.
func (d *Desc) diff(path string, a, b *Val) string {
	if a == nil || b == nil {
		if a == nil && b == nil {
			return ""
		}
		return path + ": one side missing"
	}
	switch d.K {
	case "str":
		if a.S != b.S {
			return fmt.Sprintf("%s: %q != %q", path, clip(a.S, 80), clip(b.S, 80))
		}
	case "f32":
		if a.U != b.U && !(isNaN32(a.U) && isNaN32(b.U)) {
			return fmt.Sprintf("%s: float32 bits %#x != %#x", path, a.U, b.U)
		}
	case "ptr":
		if a.Nil != b.Nil {
			return fmt.Sprintf("%s: nil pointer %v != %v", path, a.Nil, b.Nil)
		}
		if !a.Nil {
			return d.Elem.diff(path+".*", a.L[0], b.L[0])
		}
	case "slice":
		if len(a.L) != len(b.L) {
			return fmt.Sprintf("%s: length %d != %d", path, len(a.L), len(b.L))
		}
		for i := range a.L {
			if s := d.Elem.diff(fmt.Sprintf("%s[%d]", path, i), a.L[i], b.L[i]); s != "" {
				return s
			}
		}
	case "map":
		if len(a.L) != len(b.L) {
			return fmt.Sprintf("%s: map size %d != %d", path, len(a.L)/2, len(b.L)/2)
		}
		pa, pb := d.sortedPairs(a), d.sortedPairs(b)
		for i := range pa {
			if s := d.Key.diff(fmt.Sprintf("%s.key%d", path, i), pa[i][0], pb[i][0]); s != "" {
				return s
			}
			if s := d.Elem.diff(fmt.Sprintf("%s.val%d", path, i), pa[i][1], pb[i][1]); s != "" {
				return s
			}
		}
	case "struct":
		for i, f := range d.Fields {
			if s := f.diff(fmt.Sprintf("%s.%d", path, i), a.L[i], b.L[i]); s != "" {
				return s
			}
		}
	case "range", "cm0", "cm1", "cm2":
		for i := range a.L {
			if a.L[i].U != b.L[i].U || a.L[i].H != b.L[i].H {
				return fmt.Sprintf("%s: %d: %#x %#x != %#x %#x", path, i, a.L[i].U, a.L[i].H, b.L[i].U, b.L[i].H)
			}
		}
	default:
		if a.U != b.U || a.H != b.H {
			return fmt.Sprintf("%s: %s %#x/%#x != %#x/%#x", path, d.K, a.U, a.H, b.U, b.H)
		}
	}
	return ""
}

func (d *Desc) sortedPairs(v *Val) [][2]*Val {
	var ps [][2]*Val
	keys := map[*Val]string{}
	for i := 0; i+1 < len(v.L); i += 2 {
		ps = append(ps, [2]*Val{v.L[i], v.L[i+1]})
		var e refEncoder
		d.Key.encode(&e, v.L[i], "")
		keys[v.L[i]] = string(e.b)
	}
	sort.SliceStable(ps, func(i, j int) bool { return keys[ps[i][0]] < keys[ps[j][0]] })
	return ps
}

func guidOf(v *Val) serialization.GUID {
	var b [16]byte
	binary.BigEndian.PutUint64(b[:], v.U)
	binary.BigEndian.PutUint64(b[8:], v.H)
	g := serialization.GUID{Data1: binary.BigEndian.Uint32(b[0:]), Data2: binary.BigEndian.Uint16(b[4:]), Data3: binary.BigEndian.Uint16(b[6:])}
	copy(g.Data4[:], b[8:])
	return g
}

func valOfGUID(g serialization.GUID) *Val {
	return &Val{U: uint64(g.Data1)<<32 | uint64(g.Data2)<<16 | uint64(g.Data3), H: binary.BigEndian.Uint64(g.Data4[:])}
}

func nodeIDOf(v *Val) federation.NodeID { return federation.NodeID{Hi: v.U, Lo: v.H} }

// ---------------------------------------------------------------- reference encoder

type refEncoder struct{ b []byte }

func (e *refEncoder) u8(v ...byte) { e.b = append(e.b, v...) }
func (e *refEncoder) u16(v uint16) { e.b = binary.LittleEndian.AppendUint16(e.b, v) }
func (e *refEncoder) u32(v uint32) { e.b = binary.LittleEndian.AppendUint32(e.b, v) }
func (e *refEncoder) u64(v uint64) { e.b = binary.LittleEndian.AppendUint64(e.b, v) }

// uvarint: shortest run of big-endian 7 bit groups whose first group has a clear sign bit (0x40).
func uvarint(v uint64) []byte {
	n := 1
	for n < 10 && v>>(uint(n)*7-1) != 0 {
		n++
	}
	return groups(v, n)
}

// svarint: shortest run whose sign-extended value is v.
func svarint(v int64) []byte {
	n := 1
	for n < 10 && (v>>(uint(n)*7-1)) != 0 && (v>>(uint(n)*7-1)) != -1 {
		n++
	}
	return groups(uint64(v), n)
}

func groups(v uint64, n int) []byte {
	out := make([]byte, n)
	for i := n - 1; i >= 0; i-- {
		g := byte(v & 0x7F)
		if i != n-1 {
			g |= 0x80
		}
		out[i] = g
		v = uint64(int64(v) >> 7)
	}
	if n == 10 {
		// ten groups hold 70 bits: the top bits are sign bits, none for unsigned values
		out[0] &= 0xFF
	}
	return out
}

func uvarintBytes(v uint64) []byte {
	if v>>63 == 0 {
		return uvarint(v)
	}
	// 64 significant bits: ten groups, the first holding bit 63 only
	out := make([]byte, 10)
	for i := 9; i >= 0; i-- {
		g := byte(v & 0x7F)
		if i != 9 {
			g |= 0x80
		}
		out[i] = g
		v >>= 7
	}
	return out
}

func (e *refEncoder) guid(v *Val) {
	g := guidOf(v)
	e.u32(g.Data1)
	e.u16(g.Data2)
	e.u16(g.Data3)
	e.u8(g.Data4[:]...)
}

func (e *refEncoder) nodeid(v *Val) {
	e.u8(mNodeID, 0x10)
	e.u64(v.U)
	e.u64(v.H)
}

func utf16Units(s string) []uint16 { return utf16.Encode([]rune(s)) }

// encode appends the wire form of v as a value of d (a writer of the given side).
func (d *Desc) encode(e *refEncoder, v *Val, side string) {
	switch d.K {
	case "bool":
		if v.U != 0 {
			e.u8(mTrue)
		} else {
			e.u8(mFalse)
		}
	case "i8", "u8":
		if byte(v.U) == 0 {
			e.u8(mEmpty | baseMeta[d.K])
		} else {
			e.u8(baseMeta[d.K], byte(v.U))
		}
	case "u16", "u32", "u64":
		if v.U == 0 {
			e.u8(mEmpty | baseMeta[d.K])
		} else {
			e.u8(baseMeta[d.K])
			e.u8(uvarintBytes(v.U)...)
		}
	case "i16", "i32", "i64":
		if v.U == 0 {
			e.u8(mEmpty | baseMeta[d.K])
		} else {
			e.u8(baseMeta[d.K])
			e.u8(svarint(int64(v.U))...)
		}
	case "f32":
		if uint32(v.U) == 0 {
			e.u8(mEmpty | mDouble)
		} else {
			e.u8(mDouble)
			e.u64(math.Float64bits(float64(math.Float32frombits(uint32(v.U)))))
		}
	case "f64":
		if v.U == 0 {
			e.u8(mEmpty | mDouble)
		} else {
			e.u8(mDouble)
			e.u64(v.U)
		}
	case "str":
		if v.S == "" {
			e.u8(mStringEmpty)
		} else {
			u := utf16Units(v.S)
			e.u8(mString)
			e.u8(uvarintBytes(uint64(len(u)))...)
			for _, c := range u {
				e.u16(c)
			}
		}
	case "guid":
		if v.U == 0 && v.H == 0 {
			e.u8(mEmpty | mGuid)
		} else {
			e.u8(mGuid)
			e.guid(v)
		}
	case "nodeid":
		e.nodeid(v)
	case "range":
		e.nodeid(v.L[0])
		e.nodeid(v.L[1])
	case "cm0", "cm1", "cm2":
		cmEncode(e, d.K, v)
	case "ptr":
		if v.Nil {
			e.u8(mEmpty | mPointer)
		} else {
			e.u8(mPointer)
			d.Elem.encode(e, v.L[0], side)
		}
	case "slice":
		var meta byte
		if d.Elem.K == "str" || d.Elem.K == "ptr" {
			meta = baseMeta["u32"]
		} else {
			meta = mArray | baseMeta[d.Elem.K]
		}
		if len(v.L) == 0 {
			e.u8(mEmpty | meta)
			return
		}
		e.u8(meta)
		e.u8(uvarintBytes(uint64(len(v.L)))...)
		for _, x := range v.L {
			d.Elem.encode(e, x, side)
		}
	case "map":
		if len(v.L) == 0 {
			e.u8(mEmpty | mArray)
			return
		}
		e.u8(mArray)
		e.u8(uvarintBytes(uint64(len(v.L) / 2))...)
		for i := 0; i+1 < len(v.L); i += 2 {
			var body refEncoder
			d.Key.encode(&body, v.L[i], side)
			d.Elem.encode(&body, v.L[i+1], side)
			e.object(body.b, 0)
		}
	case "struct":
		var body refEncoder
		n := -1
		if v.Cut > 0 {
			n = max(0, d.flatFields()-v.Cut)
		}
		d.fields(&body, v, side, &n)
		body.u8(v.Pad...)
		e.object(body.b, v.TI)
	default:
		panic(harnessError("encode " + d.K))
	}
}

// fields writes the first n fields, embedded ones counted one by one, or all when n is negative.
func (d *Desc) fields(e *refEncoder, v *Val, side string, n *int) {
	for i, f := range d.Fields {
		if f.Only != "" && f.Only != side {
			continue
		}
		if f.Embed && f.K == "struct" {
			f.fields(e, v.L[i], side, n)
			continue
		}
		if *n == 0 {
			return
		}
		*n--
		f.encode(e, v.L[i], side)
	}
}

func (d *Desc) flatFields() int {
	n := 0
	for _, f := range d.Fields {
		if f.Embed && f.K == "struct" {
			n += f.flatFields()
		} else {
			n++
		}
	}
	return n
}

func (e *refEncoder) object(body []byte, typeInfo int) {
	var ti []byte
	flag := byte(0)
	if typeInfo > 0 {
		flag = 1
		if typeInfo%3 == 2 {
			flag = 3 // extension data too
		}
		ti = append(uvarintBytes(uint64(typeInfo)), make([]byte, typeInfo)...)
		for i := range ti[len(ti)-typeInfo:] {
			ti[len(ti)-typeInfo+i] = byte(i*7 + 0x2F)
		}
	}
	e.u8(mObject)
	e.u32(uint32(8 + len(ti) + 1 + len(body) + 2))
	e.u8(flag, 0, 0, 0)
	e.u8(ti...)
	e.u8(mScopeBegin)
	e.u8(body...)
	e.u8(mScopeEnd, mObjectEnd)
}

func refMarshal(d *Desc, v *Val, side string) []byte {
	var e refEncoder
	d.encode(&e, v, side)
	return e.b
}

// ---------------------------------------------------------------- reference parser (strict)

var errShort = errors.New("data ends early")

type refParser struct {
	b   []byte
	pos int
}

func (p *refParser) take(n int) ([]byte, error) {
	if n < 0 || len(p.b)-p.pos < n {
		return nil, errShort
	}
	b := p.b[p.pos : p.pos+n]
	p.pos += n
	return b, nil
}

func (p *refParser) byte() (byte, error) {
	b, err := p.take(1)
	if err != nil {
		return 0, err
	}
	return b[0], nil
}

func (p *refParser) varint(signed bool) (uint64, error) {
	st := p.pos
	var v uint64
	for i := 0; ; i++ {
		c, err := p.byte()
		if err != nil {
			return 0, err
		}
		if i == 0 && c&0x40 != 0 && signed {
			v = ^uint64(0)
		}
		if i >= 10 {
			return 0, fmt.Errorf("varint too long")
		}
		v = v<<7 | uint64(c&0x7F)
		if c&0x80 == 0 {
			break
		}
	}
	var want []byte
	if signed {
		want = svarint(int64(v))
	} else {
		want = uvarintBytes(v)
	}
	if string(want) != string(p.b[st:p.pos]) {
		return 0, fmt.Errorf("varint % x is not the shortest form of %d", p.b[st:p.pos], int64(v))
	}
	return v, nil
}

func (p *refParser) want(m byte) error {
	c, err := p.byte()
	if err != nil {
		return err
	}
	if c != m {
		return fmt.Errorf("at %d: byte %#02x, want %#02x", p.pos-1, c, m)
	}
	return nil
}

func (p *refParser) count() (int, error) {
	n, err := p.varint(false)
	if err != nil {
		return 0, err
	}
	if n > uint64(len(p.b)-p.pos) {
		return 0, fmt.Errorf("count %d exceeds data", n)
	}
	return int(n), nil
}

func (p *refParser) nodeid() (*Val, error) {
	if err := p.want(mNodeID); err != nil {
		return nil, err
	}
	if err := p.want(0x10); err != nil {
		return nil, err
	}
	b, err := p.take(16)
	if err != nil {
		return nil, err
	}
	return &Val{U: binary.LittleEndian.Uint64(b), H: binary.LittleEndian.Uint64(b[8:])}, nil
}

// parse reads a value of d written by side, accepting exactly the canonical form (objects without type information).
func (d *Desc) parse(p *refParser, side string) (*Val, error) {
	v := &Val{}
	fail := func(m byte) (*Val, error) { return nil, fmt.Errorf("at %d: type byte %#02x for %s", p.pos-1, m, d.K) }
	switch d.K {
	case "nodeid":
		return p.nodeid()
	case "range":
		a, err := p.nodeid()
		if err != nil {
			return nil, err
		}
		b, err := p.nodeid()
		if err != nil {
			return nil, err
		}
		return &Val{L: []*Val{a, b}}, nil
	case "struct":
		return v, p.object(func() error { return d.parseFields(p, v, side) })
	case "cm0", "cm1", "cm2":
		return cmParse(p, d.K)
	}
	m, err := p.byte()
	if err != nil {
		return nil, err
	}
	switch d.K {
	case "bool":
		switch m {
		case mTrue:
			v.U = 1
		case mFalse:
		default:
			return fail(m)
		}
	case "i8", "u8":
		switch m {
		case baseMeta[d.K]:
			c, err := p.byte()
			if err != nil {
				return nil, err
			}
			v.U = uint64(c)
			if d.K == "i8" {
				v.U = uint64(int8(c))
			}
			if c == 0 {
				return nil, fmt.Errorf("zero not written as empty")
			}
		case baseMeta[d.K] | mEmpty:
		default:
			return fail(m)
		}
	case "i16", "i32", "i64", "u16", "u32", "u64":
		switch m {
		case baseMeta[d.K]:
			if v.U, err = p.varint(d.K[0] == 'i'); err != nil {
				return nil, err
			}
			if v.U == 0 {
				return nil, fmt.Errorf("zero not written as empty")
			}
			if n := bitsOf(d.K); n < 64 {
				if d.K[0] == 'u' && v.U>>n != 0 || d.K[0] == 'i' && int64(v.U)<<(64-n)>>(64-n) != int64(v.U) {
					return nil, fmt.Errorf("%s out of range", d.K)
				}
			}
		case baseMeta[d.K] | mEmpty:
		default:
			return fail(m)
		}
	case "f32", "f64":
		switch m {
		case mDouble:
			b, err := p.take(8)
			if err != nil {
				return nil, err
			}
			v.U = binary.LittleEndian.Uint64(b)
			if v.U == 0 {
				return nil, fmt.Errorf("zero not written as empty")
			}
			if d.K == "f32" {
				f := math.Float64frombits(v.U)
				v.U = uint64(math.Float32bits(float32(f)))
			}
		case mDouble | mEmpty:
		default:
			return fail(m)
		}
	case "str":
		switch m {
		case mString:
			n, err := p.count()
			if err != nil {
				return nil, err
			}
			b, err := p.take(2 * n)
			if err != nil {
				return nil, err
			}
			if n == 0 {
				return nil, fmt.Errorf("empty string not written as empty")
			}
			u := make([]uint16, n)
			for i := range u {
				u[i] = binary.LittleEndian.Uint16(b[2*i:])
			}
			v.S = string(utf16.Decode(u))
		case mStringEmpty:
		default:
			return fail(m)
		}
	case "guid":
		switch m {
		case mGuid:
			b, err := p.take(16)
			if err != nil {
				return nil, err
			}
			g := serialization.GUID{Data1: binary.LittleEndian.Uint32(b), Data2: binary.LittleEndian.Uint16(b[4:]), Data3: binary.LittleEndian.Uint16(b[6:])}
			copy(g.Data4[:], b[8:])
			if g == (serialization.GUID{}) {
				return nil, fmt.Errorf("zero guid not written as empty")
			}
			return valOfGUID(g), nil
		case mGuid | mEmpty:
		default:
			return fail(m)
		}
	case "ptr":
		switch m {
		case mPointer:
			x, err := d.Elem.parse(p, side)
			if err != nil {
				return nil, err
			}
			v.L = []*Val{x}
		case mPointer | mEmpty:
			v.Nil = true
		default:
			return fail(m)
		}
	case "slice":
		meta := byte(mArray | baseMeta[d.Elem.K])
		if d.Elem.K == "str" || d.Elem.K == "ptr" {
			meta = baseMeta["u32"]
		}
		switch m {
		case meta:
			n, err := p.count()
			if err != nil {
				return nil, err
			}
			if n == 0 {
				return nil, fmt.Errorf("empty slice not written as empty")
			}
			for i := 0; i < n; i++ {
				x, err := d.Elem.parse(p, side)
				if err != nil {
					return nil, err
				}
				v.L = append(v.L, x)
			}
		case meta | mEmpty:
		default:
			return fail(m)
		}
	case "map":
		switch m {
		case mArray:
			n, err := p.count()
			if err != nil {
				return nil, err
			}
			if n == 0 {
				return nil, fmt.Errorf("empty map not written as empty")
			}
			for i := 0; i < n; i++ {
				err := p.object(func() error {
					k, err := d.Key.parse(p, side)
					if err != nil {
						return err
					}
					x, err := d.Elem.parse(p, side)
					v.L = append(v.L, k, x)
					return err
				})
				if err != nil {
					return nil, err
				}
			}
		case mArray | mEmpty:
		default:
			return fail(m)
		}
	default:
		panic(harnessError("parse " + d.K))
	}
	return v, nil
}

func (d *Desc) parseFields(p *refParser, v *Val, side string) error {
	for _, f := range d.Fields {
		if f.Only != "" && f.Only != side {
			v.L = append(v.L, nil)
			continue
		}
		if f.Embed && f.K == "struct" {
			x := &Val{}
			if err := f.parseFields(p, x, side); err != nil {
				return err
			}
			v.L = append(v.L, x)
			continue
		}
		x, err := f.parse(p, side)
		if err != nil {
			return err
		}
		v.L = append(v.L, x)
	}
	return nil
}

func (p *refParser) object(fields func() error) error {
	if err := p.want(mObject); err != nil {
		return err
	}
	start := p.pos
	h, err := p.take(8)
	if err != nil {
		return err
	}
	if h[4] != 0 || h[5] != 0 || h[6] != 0 || h[7] != 0 {
		return fmt.Errorf("object flags/padding % x", h[4:])
	}
	if err := p.want(mScopeBegin); err != nil {
		return err
	}
	if err := fields(); err != nil {
		return err
	}
	if err := p.want(mScopeEnd); err != nil {
		return err
	}
	if err := p.want(mObjectEnd); err != nil {
		return err
	}
	if got, want := binary.LittleEndian.Uint32(h), uint32(p.pos-start); got != want {
		return fmt.Errorf("object size %d, is %d", got, want)
	}
	return nil
}

// refUnmarshal parses all of b.
func refUnmarshal(d *Desc, b []byte, side string) (*Val, error) {
	p := &refParser{b: b}
	v, err := d.parse(p, side)
	if err != nil {
		return nil, err
	}
	if p.pos != len(b) {
		return nil, fmt.Errorf("%d bytes after the value", len(b)-p.pos)
	}
	return v, nil
}
