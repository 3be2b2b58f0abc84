package harness

import (
	"bytes"
	"fmt"
	"reflect"

	"github.com/tg123/phabrik/serialization"
	"pgregory.net/rapid"
)

// deepCase is a chain of objects of recursive types, one inside the other.
type deepCase struct {
	Depth int    `json:"d"`
	Kinds string `json:"k"` // how each object holds the next one: pointer, slice, slice of pointers, map, embedded list
	Seed  uint64 `json:"s"`
	Old   int    `json:"o,omitempty"` // trailing fields the other side's type lacks
}

type deepRec struct {
	V    uint32
	Next *deepRec
	Kids []deepRec
	Ptrs []*deepRec
	M    map[uint16]deepRec
	S    string
	Tail int16
}

type deepRec1 struct {
	V    uint32
	Next *deepRec1
	Kids []deepRec1
	Ptrs []*deepRec1
	M    map[uint16]deepRec1
	S    string
}

type deepRec2 struct {
	V    uint32
	Next *deepRec2
	Kids []deepRec2
	Ptrs []*deepRec2
	M    map[uint16]deepRec2
}

// deepKinds are the ways an object may hold the next one.
const deepKinds = "pspmSP"

func genDeep(t *rapid.T, most int) deepCase {
	c := deepCase{Seed: rapid.Uint64().Draw(t, "seed"), Old: intn(t, "old", 0, 2)}
	c.Depth = pick(t, "depth", []int{intn(t, "few", 1, 40), intn(t, "some", 20, 140), intn(t, "many", 100, 600)})
	if oneIn(t, "most", 8) {
		c.Depth = intn(t, "depthmost", 100, most)
	}
	for i, n := 0, intn(t, "kinds", 1, 5); i < n; i++ {
		c.Kinds += string(deepKinds[intn(t, "kind", 0, len(deepKinds)-1)])
	}
	return c
}

type deepScalars struct {
	v uint32
	s string
	t int16
}

func (c deepCase) scalars(i int) deepScalars {
	r := splitmix(c.Seed + uint64(i))
	var d deepScalars
	if r&7 != 0 {
		d.v = uint32(r >> 32 >> (r >> 3 & 31))
	}
	if r&0x300 == 0 {
		d.s = fmt.Sprintf("é%d", i)
	}
	if r&0xc00 != 0 {
		d.t = int16(r >> 16)
	}
	return d
}

func (c deepCase) kind(i int) byte { return c.Kinds[i%len(c.Kinds)] }

// value builds the chain from its innermost object outwards.
func (c deepCase) value() deepRec {
	var cur deepRec
	for i := c.Depth; i >= 0; i-- {
		d := c.scalars(i)
		r := deepRec{V: d.v, S: d.s, Tail: d.t}
		if i < c.Depth {
			in := cur
			switch c.kind(i) {
			case 'p':
				r.Next = &in
			case 's':
				r.Kids = []deepRec{in}
			case 'S':
				r.Kids = []deepRec{{V: 5}, in, {Tail: -3}}
			case 'P':
				r.Ptrs = []*deepRec{{Tail: 9}, &in}
			case 'm':
				r.M = map[uint16]deepRec{uint16(i + 1): in}
			}
		}
		cur = r
	}
	return cur
}

// deepLayout is the encoding of the object with the given scalars and the encoding of the next object in it.
func deepLayout(d deepScalars, kind byte, in []byte) []byte {
	var b refEncoder
	leaf := func(k string, v *Val) { (&Desc{K: k}).encode(&b, v, "") }
	leaf("u32", &Val{U: uint64(d.v)})
	plain := func(d deepScalars) []byte { return deepLayout(d, 0, nil) }
	if kind == 'p' {
		b.u8(mPointer)
		b.u8(in...)
	} else {
		b.u8(mEmpty | mPointer)
	}
	switch kind {
	case 's':
		b.u8(mArray|mObject, 1)
		b.u8(in...)
	case 'S':
		b.u8(mArray|mObject, 3)
		b.u8(plain(deepScalars{v: 5})...)
		b.u8(in...)
		b.u8(plain(deepScalars{t: -3})...)
	default:
		b.u8(mEmpty | mArray | mObject)
	}
	if kind == 'P' {
		b.u8(baseMeta["u32"], 2)
		b.u8(mPointer)
		b.u8(plain(deepScalars{t: 9})...)
		b.u8(mPointer)
		b.u8(in...)
	} else {
		b.u8(mEmpty | baseMeta["u32"])
	}
	if kind == 'm' {
		b.u8(mArray, 1)
		b.u8(in...)
	} else {
		b.u8(mEmpty | mArray)
	}
	leaf("str", &Val{S: d.s})
	leaf("i16", &Val{U: uint64(int64(d.t))})
	var e refEncoder
	e.object(b.b, 0)
	return e.b
}

func (c deepCase) layout() []byte {
	var cur []byte
	for i := c.Depth; i >= 0; i-- {
		kind := byte(0)
		if i < c.Depth {
			kind = c.kind(i)
		}
		if kind == 'm' { // the entry of the map
			var b, e refEncoder
			(&Desc{K: "u16"}).encode(&b, &Val{U: uint64(uint16(i + 1))}, "")
			b.u8(cur...)
			e.object(b.b, 0)
			cur = e.b
		}
		cur = deepLayout(c.scalars(i), kind, cur)
	}
	return cur
}

// deepSame walks two chains of the same or of another version of the type.
func deepSame(a, b reflect.Value) string {
	for level := 0; ; level++ {
		var na, nb reflect.Value
		for i := 0; i < min(a.NumField(), b.NumField()); i++ {
			x, y := a.Field(i), b.Field(i)
			switch x.Kind() {
			case reflect.Ptr:
				if x.IsNil() != y.IsNil() {
					return fmt.Sprintf("level %d: the next object is missing or extra", level)
				}
				if !x.IsNil() {
					na, nb = x.Elem(), y.Elem()
				}
			case reflect.Slice:
				if x.Len() != y.Len() {
					return fmt.Sprintf("level %d: %d elements, want %d", level, y.Len(), x.Len())
				}
				for j := 0; j < x.Len(); j++ {
					p, q := reflect.Indirect(x.Index(j)), reflect.Indirect(y.Index(j))
					if !p.IsValid() || !q.IsValid() {
						return fmt.Sprintf("level %d: an element is nil", level)
					}
					if j == min(1, x.Len()-1) {
						na, nb = p, q
					} else if s := deepSame(p, q); s != "" {
						return fmt.Sprintf("level %d, element %d: %s", level, j, s)
					}
				}
			case reflect.Map:
				if x.Len() != y.Len() {
					return fmt.Sprintf("level %d: %d entries, want %d", level, y.Len(), x.Len())
				}
				for _, k := range x.MapKeys() {
					na, nb = x.MapIndex(k), y.MapIndex(k)
					if !nb.IsValid() {
						return fmt.Sprintf("level %d: the entry of %v is missing", level, k)
					}
				}
			default:
				if !x.Equal(y) {
					return fmt.Sprintf("level %d: field %d is %v, want %v", level, i, y, x)
				}
			}
		}
		if !na.IsValid() {
			return ""
		}
		a, b = na, nb
	}
}

func runDeep(x *X, c deepCase) {
	w := c.value()
	b, err := serialization.Marshal(&w)
	if err != nil {
		x.Failf("Marshal of %d objects one inside the other: %v", c.Depth+1, err)
	}
	if want := c.layout(); !bytes.Equal(b, want) {
		x.Failf("the encoding of %d objects one inside the other (%d bytes) differs from the protocol's (%d bytes)", c.Depth+1, len(b), len(want))
	}
	into := []any{&deepRec{V: 77, Kids: make([]deepRec, 2)}, &deepRec1{}, &deepRec2{}}
	for _, r := range []any{into[0], into[c.Old]} {
		if err := serialization.Unmarshal(b, r); err != nil {
			x.Failf("Unmarshal of %d objects one inside the other (%d bytes) into a %T: %v", c.Depth+1, len(b), r, err)
		}
		if s := deepSame(reflect.ValueOf(w), reflect.ValueOf(r).Elem()); s != "" {
			x.Failf("%d objects one inside the other come back differently in a %T: %s", c.Depth+1, r, s)
		}
	}
	if c.Old > 0 { // the older version writes, the newer one reads
		b, err := serialization.Marshal(into[c.Old])
		if err != nil {
			x.Failf("Marshal of %d objects one inside the other: %v", c.Depth+1, err)
		}
		var r deepRec
		if err := serialization.Unmarshal(b, &r); err != nil {
			x.Failf("Unmarshal of %d objects of an older version, one inside the other: %v", c.Depth+1, err)
		}
		if s := deepSame(reflect.ValueOf(into[c.Old]).Elem(), reflect.ValueOf(r)); s != "" {
			x.Failf("%d objects of an older version, one inside the other, come back differently: %s", c.Depth+1, s)
		}
	}
	if c.Depth >= 20 {
		x.NonTrivial()
	}
}

// abyss: hostile bytes that open objects without end, for types that allow it
type abyssCase struct {
	Kind string `json:"k"`
	N    int    `json:"n"`
	Cut  int    `json:"c"`
}

type (
	abyssPtr   struct{ Next *abyssPtr }
	abyssSlice struct{ Kids []abyssSlice }
	abyssPtrs  struct{ Kids []*abyssPtrs }
	abyssMap   struct{ M map[uint32]abyssMap }
	abyssKey   struct{ M map[abyssKeyKey]abyssKey }
	// the key of a map is an object too
	abyssKeyKey struct{ A uint32 }
)

func runAbyss(x *X, c abyssCase) {
	head := []byte{mObject, 0x10, 0, 0, 0, 0, 0, 0, 0, mScopeBegin}
	var level []byte
	var into any
	switch c.Kind {
	case "ptr":
		level, into = append(head, mPointer), new(abyssPtr)
	case "slice":
		level, into = append(head, mArray|mObject, 1), new(abyssSlice)
	case "ptrs":
		level, into = append(head, baseMeta["u32"], 1, mPointer), new(abyssPtrs)
	case "map":
		level = append(append(append([]byte{}, head...), mArray, 1), head...)
		level, into = append(level, mEmpty|baseMeta["u32"]), new(abyssMap)
	case "key":
		level = append(append(append([]byte{}, head...), mArray, 1), head...)
		level = append(level, mObject, 12, 0, 0, 0, 0, 0, 0, 0, mScopeBegin, mEmpty|baseMeta["u32"], mScopeEnd, mObjectEnd)
		into = new(abyssKey)
	}
	b := bytes.Repeat(level, c.N)
	b = b[:len(b)-min(c.Cut, len(b))]
	if err := serialization.Unmarshal(b, into); err == nil {
		x.Failf("%d objects that never end are accepted", c.N)
	}
	if c.N > 10000 {
		x.NonTrivial()
	}
}

func init() {
	addDeep := func(id string, quick, deep int) {
		props[id].Parts = append(props[id].Parts, part("deep", quick, deep, "at least twenty objects one inside the other", func(t *rapid.T) deepCase { return genDeep(t, 2500) }, runDeep))
	}
	addDeep("S01", 1500, 40000)
	addDeep("S02", 1000, 30000)
	addDeep("S03", 1000, 30000)
	props["S04"].Parts = append(props["S04"].Parts, part("abyss", 16, 400, "more than ten thousand objects", func(t *rapid.T) abyssCase {
		return abyssCase{Kind: pick(t, "kind", []string{"ptr", "slice", "ptrs", "map", "key"}), Cut: intn(t, "cut", 0, 30),
			N: pick(t, "n", []int{intn(t, "some", 2, 9000), 60000, 300000, 1200000, 3000000})}
	}, runAbyss))
}
