package harness

import (
	"bytes"
	"encoding/binary"
	"reflect"
	"strings"

	"github.com/tg123/phabrik/serialization"
	"pgregory.net/rapid"
)

// Large values: one collection or string that makes the object tens of kilobytes to a few megabytes long.

type largeCase struct {
	Kind string `json:"k"`
	N    int    `json:"n"`
	Seed uint32 `json:"s"`
	Tail uint32 `json:"t"`
	Deep int    `json:"d"` // objects around it
}

type largeElem struct {
	A uint32
	S string
}

type largeValue struct {
	Head uint32
	Str  string
	U64  []uint64
	I16  []int16
	Bool []bool
	Strs []string
	Objs []largeElem
	Ptrs []*largeElem
	Guid []serialization.GUID
	Map  map[uint32]string
	Tail uint32
}

type largeOuter struct {
	Before string
	V      *largeValue
	Next   *largeOuter
	After  uint64
}

// the same object of an older version
type largeOlder struct {
	Head uint32
	Str  string
}

type largeOuterOlder struct {
	Before string
	V      *largeOlder
	Next   *largeOuterOlder
	After  uint64
}

func (c largeCase) value() *largeValue {
	v := &largeValue{Head: c.Seed | 1, Tail: c.Tail | 1}
	r := c.Seed
	next := func() uint32 { r = r*1664525 + 1013904223; return r >> 3 }
	for i := 0; i < c.N; i++ {
		switch c.Kind {
		case "str":
		case "u64":
			v.U64 = append(v.U64, uint64(next())<<uint(next()%40))
		case "i16":
			v.I16 = append(v.I16, int16(next()))
		case "bool":
			v.Bool = append(v.Bool, next()&1 == 1)
		case "strs":
			v.Strs = append(v.Strs, strings.Repeat("/", int(next()%7)))
		case "objs":
			v.Objs = append(v.Objs, largeElem{next() % 3, "x"})
		case "ptrs":
			v.Ptrs = append(v.Ptrs, &largeElem{next() % 3, ""})
		case "guid":
			v.Guid = append(v.Guid, serialization.GUID{Data1: next()})
		case "map":
			if v.Map == nil {
				v.Map = map[uint32]string{}
			}
			v.Map[next()] = "?"
		}
	}
	if c.Kind == "str" {
		b := make([]byte, c.N)
		for i := range b {
			b[i] = byte(' ' + next()%90)
		}
		v.Str = string(b)
	}
	return v
}

var largeUnit = map[string]int{"str": 2, "u64": 7, "i16": 4, "bool": 1, "strs": 8, "objs": 18, "ptrs": 16, "guid": 17, "map": 22}

func genLarge(t *rapid.T) largeCase {
	c := largeCase{Kind: pick(t, "kind", sortedKeys(largeUnit)), Seed: rapid.Uint32().Draw(t, "seed"), Tail: rapid.Uint32().Draw(t, "tail"), Deep: intn(t, "deep", 0, 2)}
	size := pick(t, "size", []int{1 << 12, 1 << 14, 1<<16 - 40, 1 << 16, 1<<16 + 40, 1 << 17, 1 << 18, 1 << 20})
	if oneIn(t, "huge", 12) {
		size = 3 << 20
	}
	c.N = size/largeUnit[c.Kind] + intn(t, "more", 0, 9)
	return c
}

func runLarge(x *X, c largeCase) {
	w := &largeOuter{Before: "b", V: c.value(), After: 77}
	for i := 0; i < c.Deep; i++ {
		w = &largeOuter{Before: "o", Next: w, After: uint64(i) + 1}
	}
	b, err := serialization.Marshal(w)
	if err != nil {
		x.Failf("Marshal of %d %s: %v", c.N, c.Kind, err)
	}
	if got := int(binary.LittleEndian.Uint32(b[1:])); got != len(b)-1 {
		x.Failf("object of %d bytes states a size of %d", len(b)-1, got)
	}
	var r largeOuter
	if err := serialization.Unmarshal(b, &r); err != nil {
		x.Failf("Unmarshal of %d %s, %d bytes: %v", c.N, c.Kind, len(b), err)
	}
	if !reflect.DeepEqual(w, &r) {
		x.Failf("%d %s come back differently", c.N, c.Kind)
	}
	var o largeOuterOlder
	if err := serialization.Unmarshal(b, &o); err != nil {
		x.Failf("an older version cannot skip %d %s, %d bytes: %v", c.N, c.Kind, len(b), err)
	}
	p, q := w, &o
	for ; p != nil; p, q = p.Next, q.Next {
		if q == nil || p.Before != q.Before || p.After != q.After || (p.V == nil) != (q.V == nil) || p.V != nil && (p.V.Head != q.V.Head || p.V.Str != q.V.Str) {
			x.Failf("an older version reads %d %s differently", c.N, c.Kind)
		}
	}
	x.Label(c.Kind)
	if len(b) > 1<<16 {
		x.NonTrivial()
	}
}

type largeBox struct {
	Before string
	V      *largeValue
	After  uint64
}

// runLargeLayout compares the bytes of a large value with the reference in both directions.
func runLargeLayout(x *X, c largeCase) {
	w := &largeBox{Before: "b", V: c.value(), After: 77}
	d := descOf(reflect.TypeOf(*w))
	b, err := serialization.Marshal(w)
	if err != nil {
		x.Failf("Marshal of %d %s: %v", c.N, c.Kind, err)
	}
	v, err := refUnmarshal(d, b, "")
	if err != nil {
		x.Failf("encoding of %d %s is not the protocol's: %v", c.N, c.Kind, err)
	}
	if s := d.diff("value", d.fromGo("", reflect.ValueOf(w).Elem()), v); s != "" {
		x.Failf("encoding of %d %s describes another value: %s", c.N, c.Kind, clip(s, 300))
	}
	ref := refMarshal(d, v, "")
	if !bytes.Equal(ref, b) {
		x.Failf("encoding of %d %s differs from the protocol's", c.N, c.Kind)
	}
	var r largeBox
	if err := serialization.Unmarshal(ref, &r); err != nil {
		x.Failf("conforming bytes of %d %s are refused: %v", c.N, c.Kind, err)
	}
	if !reflect.DeepEqual(w, &r) {
		x.Failf("conforming bytes of %d %s decode to another value", c.N, c.Kind)
	}
	x.Label(c.Kind)
	if len(b) > 1<<16 {
		x.NonTrivial()
	}
}
