package main

// Generation of numbers, lists, lengths and path data together with their
// meaning. The meaning is computed from the generated structure and never by
// reading the text back, so it shares nothing with the parser under test.

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"
)

type G struct {
	*rand.Rand
	vb            [4]float64 // viewBox in force
	opts          genOpts
	ids           int
	big           bool  // longer lists than usual
	nums_, sizes_ []num // used before
}

// dict has the numbers in the source under test
var dict []float64

// cnt is less than n, in big cases sometimes up to six times as much
func (g *G) cnt(n int) int {
	if g.big && g.p(.4) {
		return g.Intn(6 * n)
	}
	return g.Intn(n)
}

// again is now and then one of the numbers used before
func (g *G) again(old *[]num, f func() num) num {
	if k := len(*old); k > 0 && g.p(.1) {
		return (*old)[g.Intn(k)]
	}
	n := f()
	*old = append(*old, n)
	return n
}

// known is a number of the source or next to one
func (g *G) known() num {
	v := dict[g.Intn(len(dict))]
	switch g.Intn(6) {
	case 0:
		v++
	case 1:
		v--
	case 2:
		v += .5
	}
	return mk(strconv.FormatFloat(v, 'f', -1, 64))
}

func (g *G) p(x float64) bool { return g.Float64() < x }

func (g *G) pick(ss ...string) string { return ss[g.Intn(len(ss))] }

type num struct {
	v float64
	s string
}

func mk(s string) num {
	v, err := strconv.ParseFloat(s, 64)
	if err != nil {
		panic(err)
	}
	return num{v, s}
}

// number in a variety of spellings, magnitude up to about 1000
func (g *G) num() num { return g.again(&g.nums_, g.num1) }

func (g *G) num1() num {
	if len(dict) > 0 && g.p(.04) {
		n := g.known()
		if g.p(.2) && n.v > 0 {
			n = num{-n.v, "-" + n.s}
		}
		return n
	}
	switch g.Intn(12) {
	case 0:
		return mk(strconv.Itoa(g.Intn(10)))
	case 1, 2:
		return mk(strconv.Itoa(g.Intn(400) - 200))
	case 3, 4:
		return mk(strconv.FormatFloat(float64(g.Intn(4000)-2000)/8, 'f', -1, 64))
	case 5, 6:
		return mk(strconv.FormatFloat(float64(g.Intn(400000)-200000)/1000, 'f', 3, 64))
	case 7:
		return mk(g.pick("", "-") + "." + strconv.Itoa(1+g.Intn(999)))
	case 8:
		return mk(g.pick("", "-") + strconv.Itoa(1+g.Intn(9)) + "." + strconv.Itoa(g.Intn(100)) + g.pick("e", "E") + g.pick("", "+", "-") + strconv.Itoa(g.Intn(3)))
	case 9:
		return mk(strconv.Itoa(1+g.Intn(40)) + g.pick("e", "E") + g.pick("1", "-1", "+1", "0", "-2"))
	case 10:
		return mk("0")
	}
	return mk(strconv.Itoa(g.Intn(100)) + "." + strconv.Itoa(g.Intn(10)))
}

// size is a positive number
func (g *G) size() num { return g.again(&g.sizes_, g.size1) }

func (g *G) size1() num {
	if len(dict) > 0 && g.p(.04) {
		if n := g.known(); n.v >= .5 {
			return n
		}
	}
	switch g.Intn(4) {
	case 0:
		return mk(strconv.Itoa(1 + g.Intn(200)))
	case 1:
		return mk(strconv.FormatFloat(float64(1+g.Intn(3000))/8, 'f', -1, 64))
	case 2:
		return mk(strconv.FormatFloat(float64(500+g.Intn(200000))/1000, 'f', 3, 64))
	}
	return mk(strconv.Itoa(2+g.Intn(30)) + ".5")
}

func hasExp(s string) bool { return strings.ContainsAny(s, "eE") }

// list writes numbers one after the other with any separator the grammar allows.
func (g *G) list(ns []num) string {
	var b strings.Builder
	style := g.Intn(4)
	for i, n := range ns {
		s := n.s
		if style == 3 && n.v >= 0 && s[0] != '-' && g.p(.1) {
			s = "+" + s
		}
		if i > 0 {
			prev := ns[i-1].s
			tight := s[0] == '-' || s[0] == '+' || (s[0] == '.' && strings.Contains(prev, ".") && !hasExp(prev))
			switch {
			case tight && (style == 2 || g.p(.4)):
			case style == 0:
				b.WriteString(" ")
			case style == 1:
				b.WriteString(",")
			default:
				b.WriteString(g.pick(" ", ",", ", ", " ,", " , ", "\n", "\t", "  ", "\r\n"))
			}
		}
		b.WriteString(s)
	}
	return b.String()
}

func (g *G) nums(n int) []num {
	out := make([]num, n)
	for i := range out {
		out[i] = g.num()
	}
	return out
}

func vals(ns []num) []float64 {
	out := make([]float64, len(ns))
	for i, n := range ns {
		out[i] = n.v
	}
	return out
}

const (
	perW = iota
	perH
	perD
)

var unitNames = []string{"", "px", "cm", "mm", "pt", "in", "Q", "pc"}
var unitPx = []float64{1, 1, 96 / 2.54, 9.6 / 2.54, 4.0 / 3, 96, 2.4 / 2.54, 16}

// length with a unit; ref tells what a percentage refers to
func (g *G) length(n num, ref int) num {
	if g.opts.units < .01 || g.p(1-g.opts.units) {
		if g.p(.1) {
			return num{n.v, n.s + "px"}
		}
		return n
	}
	if hasExp(n.s) && g.p(.5) {
		n = g.size()
	}
	pad := ""
	if g.p(.1) {
		pad = " "
	}
	if g.p(.45) {
		return num{percent(g.vb, n.v, ref), n.s + pad + "%"}
	}
	u := g.Intn(len(unitNames))
	return num{n.v * unitPx[u], n.s + pad + unitNames[u]}
}

func percent(vb [4]float64, v float64, ref int) float64 {
	switch ref {
	case perW:
		return v / 100 * vb[2]
	case perH:
		return v / 100 * vb[3]
	}
	return v / 100 * math.Sqrt((vb[2]*vb[2]+vb[3]*vb[3])/2)
}

// ---- geometry ----

type pt struct{ x, y float64 }

// rop is an expected operation. Kinds: M L Q C Z, A for an elliptical arc,
// E for a whole ellipse, R for a rounded rectangle.
type rop struct {
	k  byte
	p  []pt
	a  arcP
	rr [6]float64 // x y w h rx ry
}

type arcP struct {
	from, to     pt
	rx, ry, rot  float64
	large, sweep bool
}

type seg struct {
	k    byte
	args []num
	n    int // repeats
}

var argc = map[byte]int{'m': 2, 'l': 2, 'h': 1, 'v': 1, 'q': 4, 't': 2, 'c': 6, 's': 4, 'a': 7, 'z': 0}

func lower(k byte) byte {
	if k >= 'A' && k <= 'Z' {
		return k + 32
	}
	return k
}

// pathData generates path data out of the given commands and its meaning.
func (g *G) pathData(cmds string, n int) (string, []rop) {
	var b strings.Builder
	segs := []seg{}
	add := func(k byte) {
		s := seg{k: k, n: 1}
		if g.p(.4) && argc[lower(k)] > 0 {
			s.n = 1 + g.cnt(4)
		}
		for r := 0; r < s.n; r++ {
			if lower(k) == 'a' {
				a := []num{g.size(), g.size(), g.num(), mk(g.pick("0", "1")), mk(g.pick("0", "1")), g.num(), g.num()}
				if g.p(.06) {
					a[g.Intn(2)] = mk("0")
				}
				if g.p(.1) {
					a[0] = num{-a[0].v, "-" + a[0].s}
				}
				if g.p(.4) {
					a[2] = mk("0")
				}
				s.args = append(s.args, a...)
			} else {
				s.args = append(s.args, g.nums(argc[lower(k)])...)
			}
		}
		segs = append(segs, s)
	}
	caseOf := func(k byte) byte {
		if g.p(.5) {
			return k - 32
		}
		return k
	}
	add(caseOf('m'))
	for i, n := 0, n; i < n; i++ {
		add(caseOf(cmds[g.Intn(len(cmds))]))
	}
	for i, s := range segs {
		if i > 0 && g.p(.3) {
			b.WriteString(g.pick(" ", "\n", "  "))
		}
		b.WriteByte(s.k)
		if g.p(.3) {
			b.WriteString(" ")
		}
		b.WriteString(g.list(s.args))
	}
	return b.String(), interpret(segs)
}

func interpret(segs []seg) []rop {
	var out []rop
	var cur, start, ctl pt
	var lastKind byte
	open := false
	for _, s := range segs {
		k := lower(s.k)
		rel := s.k == k
		if k == 'z' {
			if open {
				out = append(out, rop{k: 'Z'})
				cur = start
				open = false
			}
			lastKind = k
			continue
		}
		if k != 'm' && !open {
			if len(out) > 0 {
				out = append(out, rop{k: 'M', p: []pt{cur}})
			}
			open = true
		}
		na := argc[k]
		for r := 0; r < s.n; r++ {
			v := vals(s.args[r*na : (r+1)*na])
			at := func(i int) pt {
				if rel {
					return pt{cur.x + v[i], cur.y + v[i+1]}
				}
				return pt{v[i], v[i+1]}
			}
			kind := k
			switch k {
			case 'm':
				q := at(0)
				if r == 0 {
					out = append(out, rop{k: 'M', p: []pt{q}})
					start = q
					open = true
				} else {
					out = append(out, rop{k: 'L', p: []pt{q}})
				}
				cur = q
			case 'l':
				q := at(0)
				out = append(out, rop{k: 'L', p: []pt{q}})
				cur = q
			case 'h':
				q := pt{v[0], cur.y}
				if rel {
					q.x += cur.x
				}
				out = append(out, rop{k: 'L', p: []pt{q}})
				cur = q
			case 'v':
				q := pt{cur.x, v[0]}
				if rel {
					q.y += cur.y
				}
				out = append(out, rop{k: 'L', p: []pt{q}})
				cur = q
			case 'q':
				a, q := at(0), at(2)
				out = append(out, rop{k: 'Q', p: []pt{a, q}})
				ctl, cur = a, q
			case 't':
				a := cur
				if lastKind == 'q' || lastKind == 't' {
					a = pt{2*cur.x - ctl.x, 2*cur.y - ctl.y}
				}
				q := at(0)
				out = append(out, rop{k: 'Q', p: []pt{a, q}})
				ctl, cur = a, q
			case 'c':
				a, d, q := at(0), at(2), at(4)
				out = append(out, rop{k: 'C', p: []pt{a, d, q}})
				ctl, cur = d, q
			case 's':
				a := cur
				if lastKind == 'c' || lastKind == 's' {
					a = pt{2*cur.x - ctl.x, 2*cur.y - ctl.y}
				}
				d, q := at(0), at(2)
				out = append(out, rop{k: 'C', p: []pt{a, d, q}})
				ctl, cur = d, q
			case 'a':
				q := at(5)
				rx, ry := math.Abs(v[0]), math.Abs(v[1])
				switch {
				case q == cur:
				case rx == 0 || ry == 0:
					out = append(out, rop{k: 'L', p: []pt{q}})
				default:
					out = append(out, rop{k: 'A', a: arcP{cur, q, rx, ry, v[2], v[3] != 0, v[4] != 0}})
				}
				cur = q
			}
			lastKind = kind
		}
	}
	return out
}

func fmtRops(rs []rop) string {
	var b strings.Builder
	for _, r := range rs {
		fmt.Fprintf(&b, "%c", r.k)
		for _, p := range r.p {
			fmt.Fprintf(&b, "(%g,%g)", p.x, p.y)
		}
		if r.k == 'A' || r.k == 'E' {
			fmt.Fprintf(&b, "%+v", r.a)
		}
		if r.k == 'R' {
			fmt.Fprintf(&b, "%v", r.rr)
		}
		b.WriteByte(' ')
	}
	return b.String()
}
