package harness

import (
	"crypto/md5"
	"encoding/binary"
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/tg123/phabrik/common"
	"github.com/tg123/phabrik/federation"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C01

type spanCase struct {
	D int64 `json:"d"`
	E int64 `json:"e"`
}

func genInt64(t *rapid.T) int64 {
	switch intn(t, "i64", 0, 3) {
	case 0:
		base := pick(t, "base", []int64{0, math.MaxInt64, math.MinInt64, math.MaxInt64 / 100, math.MinInt64 / 100, 1e9, -1e9, 100, -100, math.MaxInt64 / 10, math.MinInt64 / 10, 1 << 53, math.MaxInt32, math.MinInt32})
		return base + int64(intn(t, "off", -220, 220)) // wraps around at the ends
	case 1:
		return int64(genBits(t, 64, true))
	}
	return rapid.Int64().Draw(t, "any")
}

func init() {
	register(&Prop{
		ID: "C01",
		Parts: []Part{
			part("convert", 1500000, 30000000, "neither value is zero", func(t *rapid.T) spanCase {
				return spanCase{genInt64(t), genInt64(t)}
			}, func(x *X, c spanCase) {
				if c.D != 0 && c.E != 0 {
					x.NonTrivial()
				}
				// duration -> span -> duration
				back := common.TimeSpanFromDuration(time.Duration(c.D)).ToDuration()
				want := new(big.Int).Mul(new(big.Int).Quo(big.NewInt(c.D), big.NewInt(100)), big.NewInt(100))
				if big.NewInt(int64(back)).Cmp(want) != 0 {
					x.Failf("duration %d comes back as %d, want %s", c.D, int64(back), want)
				}
				if s := common.TimeSpanFromDuration(time.Duration(c.D)); int64(s) != c.D/100 {
					x.Failf("duration %d is span %d", c.D, int64(s))
				}
				conv := func(v int64) *big.Int {
					b := new(big.Int).Mul(big.NewInt(v), big.NewInt(100))
					if b.Cmp(big.NewInt(math.MaxInt64)) > 0 {
						b.SetInt64(math.MaxInt64)
					}
					if b.Cmp(big.NewInt(math.MinInt64)) < 0 {
						b.SetInt64(math.MinInt64)
					}
					return b
				}
				for _, v := range []int64{c.D, c.E} {
					if got := common.TimeSpan(v).ToDuration(); big.NewInt(int64(got)).Cmp(conv(v)) != 0 {
						x.Failf("span %d is duration %d, want %s", v, int64(got), conv(v))
					}
				}
				if common.TimeSpanMax.ToDuration() != math.MaxInt64 {
					x.Failf("largest span is %v", common.TimeSpanMax.ToDuration())
				}
			}),
		},
		Assumptions: []string{},
	})
}

// ---------------------------------------------------------------- F01

func big128(hi, lo uint64) *big.Int {
	b := new(big.Int).Lsh(new(big.Int).SetUint64(hi), 64)
	return b.Or(b, new(big.Int).SetUint64(lo))
}

var two128 = new(big.Int).Lsh(big.NewInt(1), 128)

// ringUp is how far up the ring b lies from a.
func ringUp(a, b federation.NodeID) *big.Int {
	d := new(big.Int).Sub(big128(b.Hi, b.Lo), big128(a.Hi, a.Lo))
	return d.Mod(d, two128)
}

type id128 struct {
	Hi uint64 `json:"hi"`
	Lo uint64 `json:"lo"`
}

func (i id128) node() federation.NodeID { return federation.NodeID{Hi: i.Hi, Lo: i.Lo} }

func genID(t *rapid.T, near ...id128) id128 {
	if len(near) > 0 && intn(t, "near", 0, 2) > 0 {
		b := pick(t, "base", near)
		v := big128(b.Hi, b.Lo)
		switch intn(t, "delta", 0, 3) {
		case 0:
		case 1:
			v.Add(v, big.NewInt(int64(intn(t, "d", -2, 2))))
		case 2:
			v.Add(v, new(big.Int).Lsh(big.NewInt(int64(intn(t, "d", -2, 2))), 64))
		case 3:
			v.Add(v, new(big.Int).Lsh(big.NewInt(1), uint(intn(t, "s", 0, 127))))
		}
		v.Mod(v, two128)
		return id128{new(big.Int).Rsh(v, 64).Uint64(), new(big.Int).And(v, new(big.Int).SetUint64(math.MaxUint64)).Uint64()}
	}
	switch intn(t, "id", 0, 5) {
	case 0:
		return id128{0, uint64(intn(t, "small", 0, 3))}
	case 1:
		return id128{math.MaxUint64, math.MaxUint64 - uint64(intn(t, "small", 0, 3))}
	case 2:
		return id128{uint64(intn(t, "hi", 0, 2)), rapid.Uint64().Draw(t, "lo")}
	case 3:
		return id128{rapid.Uint64().Draw(t, "hi"), pick(t, "loe", []uint64{0, 1, math.MaxUint64, 1 << 63})}
	}
	return id128{rapid.Uint64().Draw(t, "hi"), rapid.Uint64().Draw(t, "lo")}
}

type rangeCase struct {
	B  id128   `json:"b"`
	E  id128   `json:"e"`
	Id []id128 `json:"id"`
}

func init() {
	register(&Prop{
		ID: "F01",
		Parts: []Part{
			part("contains", 600000, 12000000, "begin and end differ", func(t *rapid.T) rangeCase {
				c := rangeCase{B: genID(t)}
				c.E = genID(t, c.B)
				ends := []id128{c.B, c.E, {0, 0}, {math.MaxUint64, math.MaxUint64}}
				for i := 0; i < 6; i++ {
					c.Id = append(c.Id, genID(t, ends...))
				}
				return c
			}, func(x *X, c rangeCase) {
				r := federation.NodeIdRange{Begin: c.B.node(), End: c.E.node()}
				span := ringUp(r.Begin, r.End)
				for _, i := range append(c.Id, c.B, c.E) {
					want := ringUp(r.Begin, i.node()).Cmp(span) <= 0
					if got := r.Contains(i.node()); got != want {
						x.Failf("[%v, %v] contains %v: %v, want %v", r.Begin, r.End, i.node(), got, want)
					}
				}
				if c.B != c.E {
					x.NonTrivial()
				}
				if span.Cmp(ringUp(federation.MinNodeID, r.End)) > 0 {
					x.Label("wraps")
				}
			}),
			part("encoding", 120000, 2400000, "two scalars are not zero", func(t *rapid.T) serCase {
				return genSer(t, genOpts{maps: true}, []string{"nodeid", "range", "range"})
			}, func(x *X, c serCase) {
				// node ids and ranges next to each other and inside collections
				d := &Desc{K: "struct", Fields: []*Desc{{K: "range"}, {K: "nodeid"}, c.D, {K: "range"}, {K: "slice", Elem: &Desc{K: "range"}}, {K: "ptr", Elem: &Desc{K: "nodeid"}}}}
				a, b := &Val{U: 1, H: 2}, &Val{U: c.V.U, H: c.V.H}
				rg := &Val{L: []*Val{a, b}}
				v := &Val{L: []*Val{rg, b, c.V, rg, {L: []*Val{rg, {L: []*Val{b, a}}}}, {L: []*Val{a}}}}
				runRoundTrip(x, serCase{D: d, V: v})
			}),
		},
		Assumptions: []string{"a range whose ends are equal contains that id only"},
	})
}

// ---------------------------------------------------------------- F02

type hexCase struct {
	I   id128  `json:"i"`
	C   uint64 `json:"c"`
	Z   int    `json:"z"`
	Mut string `json:"m"`
}

var hexForm = regexp.MustCompile(`^[0-9a-fA-F]+$`)

func init() {
	register(&Prop{
		ID: "F02",
		Parts: []Part{
			part("hex", 1000000, 20000000, "the mutated text is not a hexadecimal number of 128 bits", func(t *rapid.T) hexCase {
				c := hexCase{I: genID(t), C: rapid.Uint64().Draw(t, "case"), Z: intn(t, "zeros", 0, 40)}
				s := []rune(mixCase(fmt.Sprintf("%x", big128(c.I.Hi, c.I.Lo)), c.C))
				chars := []rune{'+', '-', '_', ' ', 'g', 'G', 'x', 'X', '0', 'f', '{', '.', 0, '\n', '０', 'é', '@', '`', '/', ':'}
				for i, n := 0, intn(t, "muts", 1, 3); i < n; i++ {
					p := intn(t, "pos", 0, len(s))
					switch intn(t, "how", 0, 3) {
					case 0:
						if p < len(s) {
							s[p] = pick(t, "ch", chars)
						}
					case 1:
						s = append(s[:p:p], append([]rune{pick(t, "ch", chars)}, s[p:]...)...)
					case 2:
						s = append(s[:p:p], append([]rune(pick(t, "sub", []string{"0x", "0X", "1", "f", "00000000", "ffffffff", "+", "-", "_", " ", "0b", "0o"})), s[p:]...)...)
					case 3:
						s = s[:p]
					}
				}
				c.Mut = string(s)
				return c
			}, func(x *X, c hexCase) {
				n := c.I.node()
				v := big128(c.I.Hi, c.I.Lo)
				want := fmt.Sprintf("%032x", v)
				if n.String() != want {
					x.Failf("text of %x is %q, want %q", v, n.String(), want)
				}
				for _, s := range []string{want, strings.ToUpper(want), mixCase(want, c.C), fmt.Sprintf("%x", v), mixCase(fmt.Sprintf("%X", v), c.C), strings.Repeat("0", min(c.Z, 32-len(fmt.Sprintf("%x", v)))) + fmt.Sprintf("%x", v)} {
					got, err := federation.NodeIDFromHex(s)
					if err != nil || got != n {
						x.Failf("parsing %q: %v, %v, want %v", s, got, err, n)
					}
				}
				got, err := federation.NodeIDFromHex(c.Mut)
				valid := hexForm.MatchString(c.Mut)
				if valid {
					m, _ := new(big.Int).SetString(c.Mut, 16)
					if valid = m.BitLen() <= 128; valid && (err != nil || fmt.Sprintf("%032x", m) != got.String()) {
						x.Failf("parsing %q: %v, %v", c.Mut, got, err)
					}
				}
				if !valid {
					x.NonTrivial()
					if err == nil {
						x.Failf("%q is accepted as node id %v", c.Mut, got)
					}
				}
			}),
		},
		Assumptions: []string{"leading zeros do not make a number longer than 128 bits"},
	})
}

// ---------------------------------------------------------------- F03

// independent statement of Service Fabric's node id scheme
var refPearson = [256]byte{
	0x01, 0x57, 0x31, 0x0C, 0xB0, 0xB2, 0x66, 0xA6, 0x79, 0xC1, 0x06, 0x54, 0xF9, 0xE6, 0x2C, 0xA3,
	0x0E, 0xC5, 0xD5, 0xB5, 0xA1, 0x55, 0xDA, 0x50, 0x40, 0xEF, 0x18, 0xE2, 0xEC, 0x8E, 0x26, 0xC8,
	0x6E, 0xB1, 0x68, 0x67, 0x8D, 0xFD, 0xFF, 0x32, 0x4D, 0x65, 0x51, 0x12, 0x2D, 0x60, 0x1F, 0xDE,
	0x19, 0x6B, 0xBE, 0x46, 0x56, 0xED, 0xF0, 0x22, 0x48, 0xF2, 0x14, 0xD6, 0xF4, 0xE3, 0x95, 0xEB,
	0x61, 0xEA, 0x39, 0x16, 0x3C, 0xFA, 0x52, 0xAF, 0xD0, 0x05, 0x7F, 0xC7, 0x6F, 0x3E, 0x87, 0xF8,
	0xAE, 0xA9, 0xD3, 0x3A, 0x42, 0x9A, 0x6A, 0xC3, 0xF5, 0xAB, 0x11, 0xBB, 0xB6, 0xB3, 0x00, 0xF3,
	0x84, 0x38, 0x94, 0x4B, 0x80, 0x85, 0x9E, 0x64, 0x82, 0x7E, 0x5B, 0x0D, 0x99, 0xF6, 0xD8, 0xDB,
	0x77, 0x44, 0xDF, 0x4E, 0x53, 0x58, 0xC9, 0x63, 0x7A, 0x0B, 0x5C, 0x20, 0x88, 0x72, 0x34, 0x0A,
	0x8A, 0x1E, 0x30, 0xB7, 0x9C, 0x23, 0x3D, 0x1A, 0x8F, 0x4A, 0xFB, 0x5E, 0x81, 0xA2, 0x3F, 0x98,
	0xAA, 0x07, 0x73, 0xA7, 0xF1, 0xCE, 0x03, 0x96, 0x37, 0x3B, 0x97, 0xDC, 0x5A, 0x35, 0x17, 0x83,
	0x7D, 0xAD, 0x0F, 0xEE, 0x4F, 0x5F, 0x59, 0x10, 0x69, 0x89, 0xE1, 0xE0, 0xD9, 0xA0, 0x25, 0x7B,
	0x76, 0x49, 0x02, 0x9D, 0x2E, 0x74, 0x09, 0x91, 0x86, 0xE4, 0xCF, 0xD4, 0xCA, 0xD7, 0x45, 0xE5,
	0x1B, 0xBC, 0x43, 0x7C, 0xA8, 0xFC, 0x2A, 0x04, 0x1D, 0x6C, 0x15, 0xF7, 0x13, 0xCD, 0x27, 0xCB,
	0xE9, 0x28, 0xBA, 0x93, 0xC6, 0xC0, 0x9B, 0x21, 0xA4, 0xBF, 0x62, 0xCC, 0xA5, 0xB4, 0x75, 0x4C,
	0x8C, 0x24, 0xD2, 0xAC, 0x29, 0x36, 0x9F, 0x08, 0xB9, 0xE8, 0x71, 0xC4, 0xE7, 0x2F, 0x92, 0x78,
	0x33, 0x41, 0x1C, 0x90, 0xFE, 0xDD, 0x5D, 0xBD, 0xC2, 0x8B, 0x70, 0x2B, 0x47, 0x6D, 0xB8, 0xD1,
}

func refHash(name string) (hi, lo uint64) {
	var in []byte
	for _, u := range utf16Units("UTzJ" + name + "X3if") {
		in = append(in, byte(u), byte(u>>8))
	}
	var out [16]byte
	for j := range out {
		h := refPearson[in[0]+byte(j)]
		for _, c := range in[1:] {
			h = refPearson[h^c]
		}
		out[j] = h
	}
	return binary.LittleEndian.Uint64(out[:8]), binary.LittleEndian.Uint64(out[8:])
}

// splitInstance cuts a name at its last dot or underscore; ok when what follows is a 64 bit decimal number.
func splitInstance(name string) (role string, n uint64, ok bool) {
	i := strings.LastIndexAny(name, "._")
	if i < 0 || i+1 == len(name) {
		return "", 0, false
	}
	for _, c := range name[i+1:] {
		if c < '0' || c > '9' {
			return "", 0, false
		}
	}
	v, ok2 := new(big.Int).SetString(name[i+1:], 10)
	if !ok2 || v.BitLen() > 64 {
		return "", 0, false
	}
	return name[:i], v.Uint64(), true
}

func refV4(name string) federation.NodeID {
	hi, lo := refHash(name)
	if role, n, ok := splitInstance(name); ok {
		_, rlo := refHash(role)
		top := (rlo + n) % (1 << 24) * 14938617 % (1 << 24)
		hi = hi&(1<<40-1) | top<<40
	}
	return federation.NodeID{Hi: hi, Lo: lo}
}

func genNodeName(t *rapid.T) string {
	s := genString(t, "role")
	if len(s) > 300 {
		s = s[:100]
	}
	switch intn(t, "form", 0, 5) {
	case 0:
		return s
	case 1, 2:
		return s + pick(t, "sep", []string{".", "_"}) + strconv.FormatUint(genBits(t, 64, false), 10)
	case 3:
		return s + pick(t, "sep", []string{".", "_", "-", "", "__", "._"}) + pick(t, "suf", []string{"", "0", "00", "007", "-1", "+1", "1e3", "0x10", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "1 ", " 1", "1_000", "16777216", "16777217", "１"})
	case 4:
		return s + "." + strconv.Itoa(intn(t, "n", 0, 30)) + "_" + strconv.Itoa(intn(t, "m", 0, 30))
	}
	return "Role_" + strconv.Itoa(intn(t, "n", 0, 1<<24+5))
}

type nameCase struct {
	N string `json:"n"`
}
type spreadCase struct {
	Role string   `json:"r"`
	Sep  string   `json:"s"`
	N    []uint64 `json:"n"`
}

func init() {
	register(&Prop{
		ID: "F03",
		Parts: []Part{
			part("names", 1000000, 20000000, "the name has a numeric instance suffix", func(t *rapid.T) nameCase {
				return nameCase{genNodeName(t)}
			}, func(x *X, c nameCase) {
				got := federation.NodeIDFromV4Generator(c.N)
				if want := refV4(c.N); got != want {
					x.Failf("version 4 id of %q is %v, want %v", c.N, got, want)
				}
				if again := federation.NodeIDFromV4Generator(c.N); again != got {
					x.Failf("version 4 id of %q changes: %v, %v", c.N, got, again)
				}
				h := md5.Sum([]byte(c.N))
				want := federation.NodeID{Hi: binary.LittleEndian.Uint64(h[:8]), Lo: binary.LittleEndian.Uint64(h[8:])}
				if got := federation.NodeIDFromMD5(c.N); got != want {
					x.Failf("md5 id of %q is %v, want %v", c.N, got, want)
				}
				if _, _, ok := splitInstance(c.N); ok {
					x.NonTrivial()
				}
				// identities known from a cluster
				if s := federation.NodeIDFromV4Generator("FE29236_2").String(); s != "a524682b4ceb893541e862483db07d22" {
					x.Failf("id of FE29236_2 is %s", s)
				}
				if s := federation.NodeIDFromMD5("NodeName").String(); s != "0dc87bf4b3176cc286c5d707132f62a9" {
					x.Failf("id of NodeName is %s", s)
				}
			}),
			part("spread", 100000, 2000000, "at least two instance numbers differ modulo 2^24", func(t *rapid.T) spreadCase {
				c := spreadCase{Role: genString(t, "role"), Sep: pick(t, "sep", []string{".", "_"})}
				if len(c.Role) > 60 {
					c.Role = c.Role[:20]
				}
				base := genBits(t, 63, false)
				for i, n := 0, intn(t, "n", 2, 60); i < n; i++ {
					switch intn(t, "how", 0, 2) {
					case 0:
						c.N = append(c.N, base+uint64(i))
					case 1:
						c.N = append(c.N, genBits(t, 64, false))
					case 2:
						c.N = append(c.N, base+1<<uint(intn(t, "bit", 0, 23)))
					}
				}
				return c
			}, func(x *X, c spreadCase) {
				top := map[uint64]uint64{}
				for _, n := range c.N {
					id := federation.NodeIDFromV4Generator(c.Role + c.Sep + strconv.FormatUint(n, 10))
					k := id.Hi >> 40
					if o, ok := top[k]; ok && o%(1<<24) != n%(1<<24) {
						x.Failf("%q%s%d and %d share their top 24 bits %#x", c.Role, c.Sep, o, n, k)
					}
					top[k] = n
				}
				if len(top) > 1 {
					x.NonTrivial()
				}
			}),
		},
		Assumptions: []string{"names are valid Unicode", "an instance suffix is a decimal number of at most 64 bits after the last dot or underscore"},
	})
}
