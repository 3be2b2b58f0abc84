package harness

import (
	"encoding/binary"
	"reflect"
	"regexp"
	"strings"

	"github.com/tg123/phabrik/serialization"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- S04

type mutation struct {
	K string `json:"k"` // set, flip, ins, del, dup, cut, put32, count
	P int    `json:"p"`
	N int    `json:"n,omitempty"`
	B []byte `json:"b,omitempty"`
}

var hostileBytes = [][]byte{
	{0xFF}, {0x7F}, {0x80}, {0x00}, {0x40}, {0xC0}, {0x1F}, {0x2F}, {0x3F}, {0x8D}, {0x88}, {0x08}, {0x0D}, {0x01},
	{0x8F, 0xFF, 0xFF, 0xFF, 0x7F}, {0x87, 0xFF, 0xFF, 0xFF, 0x7F}, {0x80, 0x84, 0x80, 0x80, 0x00}, {0x90, 0x80, 0x80, 0x80, 0x00},
	{0x80, 0xC0, 0x80, 0x00}, {0x80, 0xC0, 0x00}, {0xFF, 0xFF, 0xFF, 0xFF, 0xFF}, {0xFF, 0xFF, 0xFF, 0x7F},
	{0xFF, 0xFF, 0xFF, 0xFF}, {0, 0, 0, 0}, {0, 0, 0, 0x80}, {0xFF, 0xFF, 0xFF, 0x7F},
	{0x80, 0x8F, 0xFF, 0xFF, 0xFF, 0x7F}, {0x8D, 0x8F, 0xFF, 0xFF, 0xFF, 0x7F}, {0x08, 0x87, 0xFF, 0xFF, 0xFF, 0x7F}, {0x80, 0x80, 0x80, 0xC0, 0x00},
	{0x8D, 0x81, 0x80, 0x80, 0x80, 0x00}, {0x80, 0x82, 0x80, 0x80, 0x00}, {0x8A, 0x84, 0x80, 0x80, 0x00},
}

func genMutations(t *rapid.T, n int) []mutation {
	var ms []mutation
	for i, k := 0, intn(t, "mutations", 1, 4); i < k; i++ {
		m := mutation{K: pick(t, "mk", []string{"set", "set", "put", "put", "ins", "flip", "del", "dup", "cut"}), P: intn(t, "mp", 0, max(0, n+4))}
		switch m.K {
		case "set":
			m.B = []byte{rapid.Byte().Draw(t, "mb")}
		case "put", "ins":
			m.B = pick(t, "hostile", hostileBytes)
		case "flip":
			m.N = intn(t, "bit", 0, 7)
		case "del", "dup":
			m.N = intn(t, "mn", 1, 12)
		}
		ms = append(ms, m)
	}
	return ms
}

func mutate(b []byte, ms []mutation) []byte {
	b = append([]byte(nil), b...)
	for _, m := range ms {
		if len(b) == 0 {
			if m.K == "ins" {
				b = append(b, m.B...)
			}
			continue
		}
		p := m.P % len(b)
		switch m.K {
		case "set", "put":
			copy(b[p:], m.B)
		case "flip":
			b[p] ^= 1 << m.N
		case "ins":
			b = append(b[:p:p], append(append([]byte(nil), m.B...), b[p:]...)...)
		case "del":
			b = append(b[:p:p], b[min(len(b), p+m.N):]...)
		case "dup":
			e := min(len(b), p+m.N)
			b = append(b[:e:e], append(append([]byte(nil), b[p:e]...), b[e:]...)...)
		case "cut":
			b = b[:p]
		}
	}
	return b
}

type hostileCase struct {
	D   *Desc      `json:"d"`
	V   *Val       `json:"v,omitempty"`
	M   []mutation `json:"m,omitempty"`
	Raw []byte     `json:"raw,omitempty"`
}

func runHostile(x *X, c hostileCase) {
	b := c.Raw
	if c.V != nil {
		b = mutate(refMarshal(c.D, c.V, ""), c.M)
	}
	hostile(x, c.D.goType(""), b)
}

func hostile(x *X, t reflect.Type, b []byte) {
	bound := allocBound(t, len(b))
	orig := string(b)
	for round := 0; ; round++ {
		into := reflect.New(t)
		before := totalAlloc()
		err := serialization.Unmarshal(b, into.Interface())
		got := totalAlloc() - before
		if string(b) != orig {
			x.Failf("decoding changes its input")
		}
		if round == 0 {
			if err == nil {
				x.Label("accepted")
			} else {
				x.Label("rejected")
			}
		}
		// the count includes other goroutines' and first-use allocations: it must be too large every time
		if got <= bound {
			break
		}
		if round == 7 {
			x.Failf("decoding %d bytes allocates %d bytes (bound %d), result: %s\nbytes % x", len(b), got, bound, describe(err), clipBytes(b, 300))
		}
	}
	if len(b) > 10 {
		x.NonTrivial()
	}
}

var hostileTokens = []byte{0x00, 0x01, 0x02, 0x42, 0x72, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x09, 0x0A, 0x0B, 0x0C, 0x0D, 0x0E, 0x1F, 0x2F, 0x3F, 0x80, 0x84, 0x88, 0x8D, 0xC0, 0xC1, 0xCD, 0x40, 0x41, 0x48, 0xFF, 0x7F, 0x10}

func genTokenBytes(t *rapid.T) []byte {
	var b []byte
	if coin(t, "asobject") {
		b = append(b, 0x00, 0x20, 0, 0, 0, 0, 0, 0, 0, 0x1F)
	}
	for i, n := 0, intn(t, "tokens", 0, 24); i < n; i++ {
		switch intn(t, "token", 0, 5) {
		case 0:
			b = append(b, pick(t, "h", hostileBytes)...)
		case 1:
			b = append(b, genBytes(t, "raw", 1, 4)...)
		case 2:
			b = append(b, 0x00, byte(intn(t, "osize", 0, 64)), 0, 0, 0, byte(intn(t, "oflag", 0, 3)), 0, 0, 0, 0x1F)
		default:
			b = append(b, pick(t, "tok", hostileTokens))
		}
	}
	return b
}

type prefixCase struct {
	D *Desc `json:"d"`
	V *Val  `json:"v"`
}

// bigCase is a valid encoding of a type with large elements in which one count is forged; the real data is large too.
type bigCase struct {
	D     *Desc `json:"d"`
	N     int   `json:"n"`
	Count int64 `json:"c"`
	Tail  int   `json:"t"`
}

// backCase is a valid encoding of slices in slices whose objects claim to end elsewhere, so that a decoder that believes
// them reads the same bytes again.
type backCase struct {
	Ptr    []bool `json:"p"` // per level: the elements are pointers
	Count  []int  `json:"c"`
	Real   []int  `json:"r"` // elements really there
	Size   []int  `json:"s"` // added to the size of an element's object
	Strict bool   `json:"a"` // only the last element lies
	Tail   int    `json:"t"`
}

func runBack(x *X, c backCase) {
	d := &Desc{K: "struct", Fields: []*Desc{{K: "bool"}}}
	body := []byte{mTrue}
	for l := range c.Count {
		el := d
		if c.Ptr[l] {
			el = &Desc{K: "ptr", Elem: d}
		}
		d = &Desc{K: "struct", Fields: []*Desc{{K: "slice", Elem: el}, {K: "bool"}}}
		var e refEncoder
		e.u8(mArray | mObject)
		if c.Ptr[l] {
			e = refEncoder{}
			e.u8(0x08)
		}
		e.u8(uvarintBytes(uint64(c.Count[l]))...)
		for i := 0; i < c.Real[l]; i++ {
			if c.Ptr[l] {
				e.u8(mPointer)
			}
			var o refEncoder
			o.object(body, 0)
			if !c.Strict || i == c.Real[l]-1 {
				binary.LittleEndian.PutUint32(o.b[1:], uint32(int(binary.LittleEndian.Uint32(o.b[1:]))+c.Size[l]))
			}
			e.u8(o.b...)
		}
		e.u8(mTrue)
		body = e.b
	}
	var e refEncoder
	e.object(body, 0)
	e.u8(make([]byte, c.Tail)...)
	runHostile(x, hostileCase{D: d, Raw: e.b})
}

type (
	rec0 struct{}
	rec1 struct {
		X rec0
		A *rec1
		L []*rec1
	}
	rec2 struct {
		X    rec0
		A, B *rec2
	}
	rec3 struct {
		X       rec0
		A, B, C *rec3
	}
	recTop1 struct{ L []*rec1 }
	recTop2 struct{ L []*rec2 }
	recTop3 struct{ L []*rec3 }
)

// againCase is a chain of objects of a recursive type; the ones that lie claim to end where their first field does, so that
// a decoder that believes them reads the rest of them as what follows them.
type againCase struct {
	T     int    `json:"t"`
	Lie   []bool `json:"l"`
	Count int    `json:"c"`
	Far   int    `json:"f"` // the lie is this far off
	Tail  int    `json:"e"`
}

func runAgain(x *X, c againCase) {
	var b []byte
	for k := len(c.Lie) - 1; k >= 0; k-- {
		var body, o refEncoder
		body.object(nil, 0)
		n := len(body.b) - 2
		if b == nil {
			body.u8(mEmpty | mPointer)
		} else {
			body.u8(mPointer)
			body.u8(b...)
		}
		n = len(body.b) - n
		for i := 1; i < c.T; i++ {
			body.u8(mEmpty | mPointer)
			n++
		}
		if c.T == 1 {
			body.u8(0x48)
			n++
		}
		o.object(body.b, 0)
		if c.Lie[k] {
			binary.LittleEndian.PutUint32(o.b[1:], binary.LittleEndian.Uint32(o.b[1:])-uint32(n+c.Far))
		}
		b = o.b
	}
	var e, top refEncoder
	e.u8(0x08)
	e.u8(uvarintBytes(uint64(c.Count))...)
	for i := 0; i < 1+c.Count%3; i++ {
		e.u8(mPointer)
		e.u8(b...)
	}
	top.object(e.b, 0)
	top.u8(make([]byte, c.Tail)...)
	hostile(x, reflect.TypeOf([]any{recTop1{}, recTop2{}, recTop3{}}[c.T-1]), top.b)
}

func init() {
	full := genOpts{maps: true, named: true}
	tops := []string{"guid", "nodeid", "range"}
	register(&Prop{
		ID: "S04", MemBound: true,
		Parts: []Part{
			part("mutated", 130000, 3000000, "more than 10 bytes are decoded", func(t *rapid.T) hostileCase {
				o := full
				o.refX = true
				s := genSer(t, o, tops)
				return hostileCase{D: s.D, V: s.V, M: genMutations(t, 120)}
			}, runHostile),
			part("tokens", 60000, 1500000, "more than 10 bytes are decoded", func(t *rapid.T) hostileCase {
				s := genSer(t, full, tops)
				return hostileCase{D: s.D, Raw: genTokenBytes(t)}
			}, runHostile),
			part("counts", 20000, 400000, "more than 10 bytes are decoded", func(t *rapid.T) bigCase {
				budget := intn(t, "budget", 1, 8)
				var e *Desc
				switch intn(t, "elem", 0, 4) {
				case 0:
					e = &Desc{K: "str"}
				case 1:
					e = &Desc{K: "slice", Elem: &Desc{K: pick(t, "k", append([]string{}, leafKinds...))}}
				case 2:
					e = &Desc{K: "slice", Elem: genStruct(t, full, 1, &budget, true)}
				case 3:
					e = &Desc{K: "map", Key: &Desc{K: genLeafKind(t)}, Elem: genDesc(t, full, 3, &budget, false)}
				case 4:
					e = &Desc{K: "slice", Elem: &Desc{K: "ptr", Elem: genStruct(t, full, 1, &budget, true)}}
				}
				d := &Desc{K: "struct"}
				for i, n := 0, intn(t, "before", 0, 2); i < n; i++ {
					d.Fields = append(d.Fields, &Desc{K: "bool"})
				}
				d.Fields = append(d.Fields, e)
				return bigCase{D: d, N: intn(t, "n", 0, 40), Count: pick(t, "count", []int64{3, 200, 1 << 14, 1 << 16, 1 << 20, 1 << 22, 1 << 24, 1 << 26, 1 << 28, 1 << 30, 1<<31 - 1, 1 << 31, 1<<32 - 1, 0xF0000000}),
					Tail: pick(t, "tail", []int{0, 1, 7, 100, 1000, 2000})}
			}, func(x *X, c bigCase) {
				// body: the fields before, the meta of the collection, the forged count, then empty elements
				var body refEncoder
				for range c.D.Fields[:len(c.D.Fields)-1] {
					body.u8(mTrue)
				}
				last := c.D.Fields[len(c.D.Fields)-1]
				elem := byte(0x40)
				switch {
				case last.K == "str":
					body.u8(mString)
				case last.K == "map":
					body.u8(mArray)
				case last.Elem.K == "str" || last.Elem.K == "ptr":
					body.u8(0x08)
				default:
					body.u8(mArray | baseMeta[last.Elem.K])
				}
				if last.K == "slice" && last.Elem.K == "bool" {
					elem = mTrue
				}
				body.u8(uvarintBytes(uint64(c.Count))...)
				for i := 0; i < c.N+c.Tail; i++ {
					body.u8(elem)
				}
				var e refEncoder
				e.object(body.b, 0)
				runHostile(x, hostileCase{D: c.D, Raw: e.b})
			}),
			part("sizes", 20000, 400000, "more than 10 bytes are decoded", func(t *rapid.T) backCase {
				c := backCase{Strict: coin(t, "strict"), Tail: pick(t, "tail", []int{0, 10, 200, 400})}
				for i, n := 0, intn(t, "levels", 1, 6); i < n; i++ {
					c.Ptr = append(c.Ptr, oneIn(t, "ptr", 4))
					c.Count = append(c.Count, pick(t, "count", []int{1, 2, 30, 100, 200}))
					c.Real = append(c.Real, intn(t, "real", 1, 2))
					c.Size = append(c.Size, pick(t, "size", []int{0, 0, -1, -2, -3, -4, -10, -11, -12, -13, -14, -24, -26, -28, -30, 1, 5, 1 << 31, -100})+intn(t, "more", -1, 1)*intn(t, "steps", 0, 40))
				}
				return c
			}, runBack),
			part("again", 15000, 300000, "more than 10 bytes are decoded", func(t *rapid.T) againCase {
				c := againCase{T: intn(t, "t", 1, 3), Count: intn(t, "count", 1, 60), Far: pick(t, "far", []int{0, 0, 0, 1, -1, 2, 12, -2}), Tail: pick(t, "tail", []int{0, 10, 200})}
				for i, n := 0, intn(t, "depth", 1, 60); i < n; i++ {
					c.Lie = append(c.Lie, !oneIn(t, "honest", 6))
				}
				return c
			}, runAgain),
			part("prefix", 20000, 400000, "the encoding has more than 20 bytes", func(t *rapid.T) prefixCase {
				o := full
				o.refX = true
				s := genSer(t, o, nil)
				return prefixCase{D: s.D, V: s.V}
			}, func(x *X, c prefixCase) {
				b := refMarshal(c.D, c.V, "")
				t := c.D.goType("")
				step := 1
				if len(b) > 400 {
					step = len(b) / 300
				}
				for n := 0; n < len(b); n++ {
					if step > 1 && n > 40 && n < len(b)-40 && n%step != 0 {
						continue
					}
					// the capacity ends with the prefix: reading past it would fault
					p := append(make([]byte, 0, n), b[:n]...)
					if err := serialization.Unmarshal(p, reflect.New(t).Interface()); err == nil {
						x.Failf("the first %d of %d bytes are accepted\nbytes % x", n, len(b), clipBytes(b, 300))
					}
				}
				if len(b) > 20 {
					x.NonTrivial()
				}
			}),
		},
		Assumptions: []string{"allocation is bounded by 256 KiB plus a multiple of the input length that grows with the destination type's size", "the time bound is the 30 s limit of a case of at most a few KiB"},
	})

	register(&Prop{
		ID: "S05",
		Parts: []Part{
			part("mismatch", 260000, 5200000, "always: a non-empty field of another kind", genMismatch, runMismatch),
			part("metabyte", 120000, 2400000, "always: a non-empty type byte of another kind", genMetaByte, runMetaByte),
			part("unsupported", 100000, 2000000, "always", genUnsupported, runUnsupported),
			part("argument", 8000, 160000, "always", func(t *rapid.T) argCase {
				return argCase{K: intn(t, "arg", 0, len(badArgs())-1), D: genBytes(t, "data", 0, 20)}
			}, func(x *X, c argCase) {
				x.NonTrivial()
				a := badArgs()[c.K]
				b, err := serialization.Marshal(a)
				if err == nil {
					x.Failf("Marshal(%T) = % x, want an error", a, b)
				}
				if err := serialization.Unmarshal(c.D, a); err == nil {
					x.Failf("Unmarshal into %T succeeds, want an error", a)
				}
				// raw bytes pass through
				b, err = serialization.Marshal(c.D)
				if err != nil || string(b) != string(c.D) {
					x.Failf("Marshal of raw bytes % x: % x, %v", c.D, b, err)
				}
			}),
		},
		Assumptions: []string{"kinds are classes by their first wire byte: widths of signed (or of unsigned) 16 to 64 bit integers are one kind, an unsigned count and a string or pointer slice share a type byte, as do a node id and a []uint8",
			"nil pointers and nil or empty maps of unsupported types are not generated"},
	})
}

type argCase struct {
	K int    `json:"k"`
	D []byte `json:"d"`
}

func badArgs() []any {
	n, s := 5, "x"
	st := struct{ A int32 }{1}
	ps := &st
	var nilp *struct{ A int32 }
	m := map[string]int32{}
	sl := []int32{1}
	var i any = &st
	return []any{nil, 5, int32(7), "text", 1.5, true, st, &n, &s, nilp, &ps, m, &m, sl, &sl, []string{"a"}, func() {}, make(chan int), [3]byte{1, 2, 3}, &[3]byte{}, struct{}{}, &i, new(any), (*int)(nil), error(nil), [][]byte{}}
}

// ---------------------------------------------------------------- S05

// wireClass groups kinds whose fields start with the same type byte or are legitimately interchangeable.
func wireClass(d *Desc) string {
	switch d.K {
	case "i16", "i32", "i64":
		return "int"
	case "u16", "u64":
		return "uint"
	case "f32", "f64":
		return "float"
	case "u32":
		return "uint"
	case "range":
		return "nodeid"
	case "cm0", "cm1", "cm2":
		return "custom"
	case "map":
		return "[]struct" // maps are arrays of objects
	case "slice":
		switch d.Elem.K {
		case "str", "ptr":
			return "uint" // counted with an unsigned
		case "struct", "guid", "nodeid", "range":
			return "[]struct"
		case "u8":
			return "nodeid"
		}
		return "[]" + d.Elem.K
	}
	return d.K
}

type mismatchCase struct {
	Want *Desc `json:"w"` // destination field
	Got  *Desc `json:"g"` // written field
	V    *Val  `json:"v"`
	Pre  []*Desc
	PreV []*Val
	Nest int `json:"n"` // 0 top level, 1 nested struct, 2 pointer, 3 slice element, 4 map value
}

var strictKinds = []string{"bool", "i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "f32", "f64", "str", "guid", "nodeid", "[]str", "[]ptr", "[]struct"}

func strictDesc(k string) *Desc {
	switch k {
	case "[]str":
		return &Desc{K: "slice", Elem: &Desc{K: "str"}}
	case "[]ptr":
		return &Desc{K: "slice", Elem: &Desc{K: "ptr", Elem: &Desc{K: "i32"}}}
	case "[]struct":
		return &Desc{K: "slice", Elem: &Desc{K: "struct", Fields: []*Desc{{K: "i32"}}}}
	}
	return &Desc{K: k}
}

func genMismatch(t *rapid.T) mismatchCase {
	c := mismatchCase{Want: strictDesc(pick(t, "want", strictKinds)), Nest: intn(t, "nest", 0, 4)}
	o := genOpts{maps: true}
	var cand []string
	all := append(append([]string{}, strictKinds...), "ptr", "struct", "map", "[]i32", "[]f64", "[]bool", "[]u8", "[]i8", "[]u64")
	for _, k := range all {
		d := otherDesc(k)
		if wireClass(d) != wireClass(c.Want) && k != "bool" { // a bool on the wire is always an empty field
			cand = append(cand, k)
		}
	}
	c.Got = otherDesc(pick(t, "got", cand))
	for {
		size := 6
		c.V = genVal(t, c.Got, o, &size, false)
		b := refMarshal(c.Got, c.V, "")
		if b[0]&mEmpty == 0 {
			break
		}
		// force a value that is not empty
		c.V = someVal(c.Got)
		break
	}
	for i, n := 0, intn(t, "pre", 0, 2); i < n; i++ {
		d := &Desc{K: genLeafKind(t)}
		size := 4
		c.Pre = append(c.Pre, d)
		c.PreV = append(c.PreV, genVal(t, d, o, &size, false))
	}
	return c
}

func otherDesc(k string) *Desc {
	switch {
	case k == "ptr":
		return &Desc{K: "ptr", Elem: &Desc{K: "i32"}}
	case k == "struct":
		return &Desc{K: "struct", Fields: []*Desc{{K: "i32"}}}
	case k == "map":
		return &Desc{K: "map", Key: &Desc{K: "str"}, Elem: &Desc{K: "i32"}}
	case strings.HasPrefix(k, "[]") && k != "[]str" && k != "[]ptr" && k != "[]struct":
		return &Desc{K: "slice", Elem: &Desc{K: k[2:]}}
	}
	return strictDesc(k)
}

func someVal(d *Desc) *Val {
	switch d.K {
	case "str":
		return &Val{S: "v"}
	case "ptr":
		return &Val{L: []*Val{someVal(d.Elem)}}
	case "slice":
		return &Val{L: []*Val{someVal(d.Elem)}}
	case "map":
		return &Val{L: []*Val{someVal(d.Key), someVal(d.Elem)}}
	case "struct":
		v := &Val{}
		for _, f := range d.Fields {
			v.L = append(v.L, someVal(f))
		}
		return v
	case "range":
		return &Val{L: []*Val{{U: 1}, {U: 2}}}
	case "f32":
		return &Val{U: 0x3f800000}
	case "f64":
		return &Val{U: 0x3ff0000000000000}
	}
	return &Val{U: 1}
}

func wrapNest(nest int, inner *Desc, v *Val) (*Desc, *Val) {
	switch nest {
	case 1:
		return &Desc{K: "struct", Fields: []*Desc{inner}}, &Val{L: []*Val{v}}
	case 2:
		return &Desc{K: "struct", Fields: []*Desc{{K: "ptr", Elem: inner}}}, &Val{L: []*Val{{L: []*Val{v}}}}
	case 3:
		return &Desc{K: "struct", Fields: []*Desc{{K: "slice", Elem: inner}}}, &Val{L: []*Val{{L: []*Val{v}}}}
	case 4:
		k := &Desc{K: "u16"}
		return &Desc{K: "struct", Fields: []*Desc{{K: "map", Key: k, Elem: inner}}}, &Val{L: []*Val{{L: []*Val{{U: 3}, v}}}}
	}
	return inner, v
}

func runMismatch(x *X, c mismatchCase) {
	x.NonTrivial()
	gd := &Desc{K: "struct", Fields: append(append([]*Desc{}, c.Pre...), c.Got)}
	wd := &Desc{K: "struct", Fields: append(append([]*Desc{}, c.Pre...), c.Want)}
	gv := &Val{L: append(append([]*Val{}, c.PreV...), c.V)}
	gd, gv = wrapNest(c.Nest, gd, gv)
	wd, _ = wrapNest(c.Nest, wd, gv)
	b := refMarshal(gd, gv, "")
	into := reflect.New(wd.goType(""))
	if err := serialization.Unmarshal(b, into.Interface()); err == nil {
		x.Failf("a %s on the wire is accepted as %s: %+v\nbytes % x", c.Got.K, wd.goType(""), into.Elem().Interface(), clipBytes(b, 200))
	}
	x.Label(wireClass(c.Got) + " into " + wireClass(c.Want))
}

type metaByteCase struct {
	Want string `json:"w"`
	M    byte   `json:"m"`
	Body []byte `json:"b"`
	Nest int    `json:"n"`
}

func acceptedMetas(k string) []byte {
	switch k {
	case "i16", "i32", "i64":
		return []byte{0x05, 0x07, 0x09}
	case "u16", "u32", "u64":
		return []byte{0x06, 0x08, 0x0A}
	case "bool":
		return nil
	case "guid":
		return []byte{0x0C}
	case "nodeid":
		return []byte{0x84}
	case "str":
		return []byte{0x8D}
	case "[]str", "[]ptr":
		return []byte{0x08}
	case "[]struct":
		return []byte{0x80}
	}
	return []byte{baseMeta[k]}
}

func genMetaByte(t *rapid.T) metaByteCase {
	c := metaByteCase{Want: pick(t, "want", strictKinds), Nest: intn(t, "nest", 0, 4)}
	var ms []byte
	for b := byte(0); b <= 0x0E; b++ {
		for _, m := range []byte{b, b | mArray} {
			ok := true
			for _, a := range acceptedMetas(c.Want) {
				ok = ok && a != m
			}
			if ok {
				ms = append(ms, m)
			}
		}
	}
	c.M = pick(t, "m", ms)
	// content that would make sense to a decoder which accepts the type byte
	c.Body = pick(t, "body", [][]byte{{1}, {0x10}, {0x02, 0x41, 0, 0x42, 0}, {0x01, 0x00, 0x0c, 0, 0, 0, 0, 0, 0, 0, 0x1f, 0x47, 0x2f, 0x3f}, {1, 2, 3, 4, 5, 6, 7, 8}, {0x81, 0x00},
		{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}, {0x10, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}, {0x01, 0x8D, 0x01, 0x41, 0}, {0x01, 0x01, 0x47}, {0x00}, {0x42}, {0x01, 0x42}, {}})
	return c
}

func runMetaByte(x *X, c metaByteCase) {
	x.NonTrivial()
	inner := &Desc{K: "struct", Fields: []*Desc{strictDesc(c.Want)}}
	wd, _ := wrapNest(c.Nest, inner, nil)
	var body refEncoder
	body.u8(c.M)
	body.u8(c.Body...)
	var obj refEncoder
	obj.object(body.b, 0)
	var top refEncoder
	switch c.Nest {
	case 0:
		top = obj
	case 1:
		top.object(obj.b, 0)
	case 2:
		top.object(append([]byte{mPointer}, obj.b...), 0)
	case 3:
		top.object(append([]byte{mArray, 1}, obj.b...), 0)
	case 4:
		var kv refEncoder
		kv.object(append([]byte{0x06, 3}, obj.b...), 0)
		top.object(append([]byte{mArray, 1}, kv.b...), 0)
	}
	into := reflect.New(wd.goType(""))
	if err := serialization.Unmarshal(top.b, into.Interface()); err == nil {
		x.Failf("type byte %#x is accepted for a field of type %s: %+v\nbytes % x", c.M, strictDesc(c.Want).goType(""), into.Elem().Interface(), top.b)
	}
}

type unsupportedCase struct {
	K    string   `json:"k"`
	Zero bool     `json:"z"`
	Pre  []string `json:"pre"`
	Wrap []string `json:"wrap"` // struct ptr slice mapval mapkey embed
}

type iface interface{ M() }

func unsupportedValue(k string, zero bool) reflect.Value {
	vals := map[string]any{
		"int": int(7), "uint": uint(7), "uintptr": uintptr(7), "c64": complex64(complex(1, 2)), "c128": complex(1, 2),
		"array": [3]int32{1, 2, 3}, "array0": [0]int32{}, "chan": make(chan int32, 1), "func": func() {},
		"[][]": [][]int32{{1}, {2}}, "[]map": []map[string]int32{{"a": 1}}, "[]int": []int{1, 2}, "[]any": []any{int32(1)},
		"[]array": [][2]int32{{1, 2}}, "[]func": []func(){nil}, "[][]b": [][]byte{{1}}, "[]c": []complex128{1}, "[]chan": []chan int32{nil},
		"map[int]": map[int]string{1: "x"}, "map[]int": map[string]int{"x": 1}, "map[]any": map[string]any{"x": int32(1)}, "map[]func": map[string]func(){"x": nil},
		"map[array]": map[[2]int32]int32{{1, 2}: 3},
	}
	if k == "any" {
		v := reflect.New(reflect.TypeOf((*any)(nil)).Elem()).Elem()
		if !zero {
			v.Set(reflect.ValueOf(int32(5)))
		}
		return v
	}
	v := reflect.New(reflect.TypeOf(vals[k])).Elem()
	if !zero || strings.HasPrefix(k, "map") {
		v.Set(reflect.ValueOf(vals[k]))
	}
	return v
}

var unsupportedKinds = []string{"int", "uint", "uintptr", "c64", "c128", "array", "array0", "chan", "func", "[][]", "[]map", "[]int", "[]any", "[]array", "[]func", "[][]b", "[]c", "[]chan", "map[int]", "map[]int", "map[]any", "map[]func", "map[array]", "any"}

func genUnsupported(t *rapid.T) unsupportedCase {
	c := unsupportedCase{K: pick(t, "k", unsupportedKinds), Zero: coin(t, "zero")}
	for i, n := 0, intn(t, "pre", 0, 2); i < n; i++ {
		c.Pre = append(c.Pre, genLeafKind(t))
	}
	for i, n := 0, intn(t, "wraps", 0, 3); i < n; i++ {
		c.Wrap = append(c.Wrap, pick(t, "wrap", []string{"struct", "ptr", "slice", "mapval", "embed"}))
	}
	return c
}

func runUnsupported(x *X, c unsupportedCase) {
	x.NonTrivial()
	v := unsupportedValue(c.K, c.Zero)
	put := func(v reflect.Value, anon bool) reflect.Value {
		var fs []reflect.StructField
		for i, k := range c.Pre {
			fs = append(fs, reflect.StructField{Name: "P" + string(rune('A'+i)), Type: basicTypes[k]})
		}
		fs = append(fs, reflect.StructField{Name: "F", Type: v.Type(), Anonymous: anon})
		s := reflect.New(reflect.StructOf(fs)).Elem()
		s.Field(len(fs) - 1).Set(v)
		return s
	}
	v = put(v, false)
	for _, w := range c.Wrap {
		switch w {
		case "struct":
			v = put(v, false)
		case "embed":
			v = put(v, true)
		case "ptr":
			p := reflect.New(v.Type())
			p.Elem().Set(v)
			v = put(p, false)
		case "slice":
			s := reflect.MakeSlice(reflect.SliceOf(v.Type()), 2, 2)
			s.Index(1).Set(v)
			v = put(s, false)
		case "mapval":
			m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), v.Type()))
			m.SetMapIndex(reflect.ValueOf("k"), v)
			v = put(m, false)
		}
	}
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	b, err := serialization.Marshal(p.Interface())
	if err == nil {
		x.Failf("Marshal of a value with a field of unsupported type %s (zero %v, wrapped in %v) succeeds: % x", c.K, c.Zero, c.Wrap, clipBytes(b, 200))
	}
	x.Label(c.K)
}

// ---------------------------------------------------------------- S07

type guidCase struct {
	V    *Val   `json:"v"`
	Case uint64 `json:"c"`           // which letters are upper case
	Mut  string `json:"m,omitempty"` // mutated text to parse
}

var guidForm = regexp.MustCompile(`^[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}$`)

func guidText(v *Val) string {
	var b [16]byte
	binary.BigEndian.PutUint64(b[:], v.U)
	binary.BigEndian.PutUint64(b[8:], v.H)
	const hex = "0123456789abcdef"
	var s []byte
	for i, c := range b {
		if i == 4 || i == 6 || i == 8 || i == 10 {
			s = append(s, '-')
		}
		s = append(s, hex[c>>4], hex[c&15])
	}
	return string(s)
}

func mixCase(s string, bits uint64) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'a' && c <= 'f' && bits>>(uint(i)%64)&1 != 0 {
			b[i] = c - 32
		}
	}
	return string(b)
}

func genGuidCase(t *rapid.T) guidCase {
	c := guidCase{V: &Val{}, Case: rapid.Uint64().Draw(t, "case")}
	c.V.U, c.V.H = gen128(t)
	if coin(t, "rnd") {
		c.V.U, c.V.H = rapid.Uint64().Draw(t, "a"), rapid.Uint64().Draw(t, "b")
	}
	s := []rune(mixCase(guidText(c.V), c.Case))
	chars := []rune{'+', '-', '_', ' ', 'g', 'G', 'x', 'X', '0', 'f', '{', '}', '.', 0, '\n', '０', 'é', 'ａ', '@', '`', '/', ':'}
	for i, n := 0, intn(t, "muts", 1, 3); i < n; i++ {
		p := intn(t, "pos", 0, len(s)-1)
		switch intn(t, "how", 0, 4) {
		case 0, 1:
			s[p] = pick(t, "ch", chars)
		case 2:
			s = append(s[:p:p], s[p+1:]...)
		case 3:
			s = append(s[:p:p], append([]rune{pick(t, "ch", chars)}, s[p:]...)...)
		case 4:
			q := intn(t, "pos2", 0, len(s)-1)
			s[p], s[q] = s[q], s[p]
		}
		if len(s) == 0 {
			break
		}
	}
	if oneIn(t, "dashes", 12) {
		b := []byte(guidText(c.V))
		ch := pick(t, "dash", []byte(" _.:0f-\x00/,+"))
		for i, which := 0, intn(t, "whichdashes", 1, 15); i < 4; i++ {
			if which>>i&1 == 1 {
				b[8+5*i] = ch
			}
		}
		s = []rune(string(b))
	}
	c.Mut = string(s)
	if oneIn(t, "wrap", 12) {
		c.Mut = pick(t, "form", []string{"{" + guidText(c.V) + "}", strings.ReplaceAll(guidText(c.V), "-", ""), "urn:uuid:" + guidText(c.V), " " + guidText(c.V), guidText(c.V) + " ", "", guidText(c.V) + guidText(c.V)})
	}
	return c
}

func init() {
	register(&Prop{
		ID: "S07",
		Parts: []Part{
			part("text", 750000, 15000000, "the GUID is not zero and the mutated text is not a GUID's", genGuidCase, func(x *X, c guidCase) {
				g := guidOf(c.V)
				want := guidText(c.V)
				if g.String() != want {
					x.Failf("text of %#v is %q, want %q", g, g.String(), want)
				}
				if e := c.V.U == 0 && c.V.H == 0; g.IsEmpty() != e {
					x.Failf("IsEmpty of %v is %v", g, !e)
				}
				for _, s := range []string{want, strings.ToUpper(want), mixCase(want, c.Case)} {
					got, err := serialization.GUIDFromString(s)
					if err != nil || got != g {
						x.Failf("parsing %q: %v, %v", s, got, err)
					}
				}
				got, err := serialization.GUIDFromString(c.Mut)
				if guidForm.MatchString(c.Mut) {
					if err != nil || got.String() != strings.ToLower(c.Mut) {
						x.Failf("parsing %q: %v, %v", c.Mut, got, err)
					}
				} else if err == nil {
					x.Failf("%q is accepted as GUID %v", c.Mut, got)
				} else if c.V.U != 0 {
					x.NonTrivial()
				}
			}),
			part("new", 10000, 200000, "always: 200 fresh GUIDs", func(t *rapid.T) int { return intn(t, "n", 150, 250) }, func(x *X, n int) {
				x.NonTrivial()
				seen := map[serialization.GUID]bool{}
				ones, zeros := [16]byte{}, [16]byte{}
				res := make(chan []serialization.GUID, 2)
				half := func() {
					var gs []serialization.GUID
					for i := 0; i < n/2; i++ {
						if i%2 == 0 {
							gs = append(gs, serialization.MustNewGuidV4())
							continue
						}
						g, err := serialization.NewGuidV4()
						if err != nil {
							x.Report("NewGuidV4: %v", err)
						}
						gs = append(gs, g)
					}
					res <- gs
				}
				go half()
				go half()
				for _, g := range append(<-res, <-res...) {
					if seen[g] {
						x.Failf("GUID %v generated twice", g)
					}
					seen[g] = true
					s := g.String()
					if s[14] != '4' || !strings.ContainsRune("89ab", rune(s[19])) {
						x.Failf("%v is not a version 4 variant 1 GUID", g)
					}
					v := valOfGUID(g)
					var b [16]byte
					binary.BigEndian.PutUint64(b[:], v.U)
					binary.BigEndian.PutUint64(b[8:], v.H)
					for i := range b {
						ones[i] |= b[i]
						zeros[i] |= ^b[i]
					}
				}
				for i := range ones {
					o, z := byte(0xFF), byte(0xFF)
					if i == 6 {
						o, z = 0x4F, 0xBF
					}
					if i == 8 {
						o, z = 0xBF, 0x7F
					}
					if ones[i] != o || zeros[i] != z {
						x.Failf("byte %d of %d fresh GUIDs has constant bits: ever one %#x, ever zero %#x", i, n, ones[i], zeros[i])
					}
				}
			}),
		},
		Assumptions: []string{"a collision or a constant bit among 200 random GUIDs has probability below 2^-140"},
	})
}
