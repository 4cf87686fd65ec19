package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Term is a hash-consed SMT term (Bool: w==0, otherwise a bit-vector of width w).
type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpEq
	OpIte
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpSDiv
	OpURem
	OpSRem
	OpShl
	OpLShr
	OpAShr
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpNeg
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpConcat
	OpExtract // val = lo, w = width
	OpZExt
	OpSExt
)

var opName = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpIte: "ite",
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpSDiv: "bvsdiv",
	OpURem: "bvurem", OpSRem: "bvsrem", OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr",
	OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor", OpBNot: "bvnot", OpNeg: "bvneg",
	OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle", OpConcat: "concat",
}

type Term struct {
	op       Op
	w        uint8 // 0 = Bool
	val      uint64
	a, b, c  *Term
	id       uint32
	name     string
	ulo, uhi uint64
	slo, shi int64
	stamp    uint32
	ev       uint64
	defined  uint32 // solver generation in which a definition exists
}

type tkey struct {
	op      Op
	w       uint8
	val     uint64
	a, b, c uint32
	name    string
}

// TCtx owns terms; it is used by one worker at a time.
type TCtx struct {
	tab    map[tkey]*Term
	nextID uint32
	stamp  uint32
	True   *Term
	False  *Term
}

func NewTCtx() *TCtx {
	c := &TCtx{tab: map[tkey]*Term{}, nextID: 1}
	c.True = c.mk(tkey{op: OpConst, w: 0, val: 1}, nil, nil, nil)
	c.False = c.mk(tkey{op: OpConst, w: 0, val: 0}, nil, nil, nil)
	return c
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w == 0 || w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (t *Term) isConst() bool { return t.op == OpConst }
func (t *Term) isTrue() bool  { return t.op == OpConst && t.w == 0 && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OpConst && t.w == 0 && t.val == 0 }

func (c *TCtx) mk(k tkey, a, b, cc *Term) *Term {
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{op: k.op, w: k.w, val: k.val, a: a, b: b, c: cc, id: c.nextID, name: k.name}
	c.nextID++
	c.setRange(t)
	c.tab[k] = t
	return t
}

func id(t *Term) uint32 {
	if t == nil {
		return 0
	}
	return t.id
}

func (c *TCtx) node(op Op, w uint8, val uint64, a, b, d *Term) *Term {
	return c.mk(tkey{op: op, w: w, val: val, a: id(a), b: id(b), c: id(d)}, a, b, d)
}

func smin(w uint8) int64 { return -int64(1) << (w - 1) }
func smax(w uint8) int64 { return int64(uint64(1)<<(w-1) - 1) }

// unsigned bounds -> signed bounds and back where possible
func (t *Term) fullRange() {
	if t.w == 0 {
		t.ulo, t.uhi = 0, 1
		return
	}
	t.ulo, t.uhi = 0, mask(t.w)
	t.slo, t.shi = smin(t.w), smax(t.w)
}

func (t *Term) syncFromU() {
	if t.w == 0 {
		return
	}
	top := uint64(1) << (t.w - 1)
	if t.uhi < top || t.ulo >= top {
		lo, hi := sext(t.ulo, t.w), sext(t.uhi, t.w)
		if lo > t.slo {
			t.slo = lo
		}
		if hi < t.shi {
			t.shi = hi
		}
	}
}

func (t *Term) syncFromS() {
	if t.w == 0 {
		return
	}
	if t.slo >= 0 || t.shi < 0 {
		lo, hi := uint64(t.slo)&mask(t.w), uint64(t.shi)&mask(t.w)
		if lo > t.ulo {
			t.ulo = lo
		}
		if hi < t.uhi {
			t.uhi = hi
		}
	}
}

func addOv(a, b int64) (int64, bool) {
	s := a + b
	return s, (a > 0 && b > 0 && s <= 0) || (a < 0 && b < 0 && s >= 0)
}
func subOv(a, b int64) (int64, bool) {
	s := a - b
	return s, (a >= 0 && b < 0 && s < 0) || (a < 0 && b > 0 && s >= 0)
}
func mulOv(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, false
	}
	s := a * b
	if s/b != a || (a == -1 && b == -1<<63) || (b == -1 && a == -1<<63) {
		return s, true
	}
	return s, false
}
func inW(v int64, w uint8) bool { return v >= smin(w) && v <= smax(w) }

func (c *TCtx) setRange(t *Term) {
	t.fullRange()
	if t.w == 0 {
		return
	}
	switch t.op {
	case OpConst:
		t.ulo, t.uhi = t.val, t.val
		t.slo, t.shi = sext(t.val, t.w), sext(t.val, t.w)
		return
	case OpAdd:
		lo, o1 := addOv(t.a.slo, t.b.slo)
		hi, o2 := addOv(t.a.shi, t.b.shi)
		if !o1 && !o2 && inW(lo, t.w) && inW(hi, t.w) {
			t.slo, t.shi = lo, hi
			t.syncFromS()
		}
		ul, c1 := bits.Add64(t.a.ulo, t.b.ulo, 0)
		uh, c2 := bits.Add64(t.a.uhi, t.b.uhi, 0)
		if c1 == 0 && c2 == 0 && uh <= mask(t.w) {
			if ul > t.ulo {
				t.ulo = ul
			}
			if uh < t.uhi {
				t.uhi = uh
			}
			t.syncFromU()
		}
	case OpSub:
		lo, o1 := subOv(t.a.slo, t.b.shi)
		hi, o2 := subOv(t.a.shi, t.b.slo)
		if !o1 && !o2 && inW(lo, t.w) && inW(hi, t.w) {
			t.slo, t.shi = lo, hi
			t.syncFromS()
		}
	case OpMul:
		if t.b.op == OpConst {
			k := sext(t.b.val, t.w)
			lo, o1 := mulOv(t.a.slo, k)
			hi, o2 := mulOv(t.a.shi, k)
			if !o1 && !o2 {
				if lo > hi {
					lo, hi = hi, lo
				}
				if inW(lo, t.w) && inW(hi, t.w) {
					t.slo, t.shi = lo, hi
					t.syncFromS()
				}
			}
		}
	case OpSDiv:
		if t.b.op == OpConst && sext(t.b.val, t.w) > 0 {
			k := sext(t.b.val, t.w)
			t.slo, t.shi = t.a.slo/k, t.a.shi/k
			t.syncFromS()
		}
	case OpSRem:
		if t.b.op == OpConst && sext(t.b.val, t.w) > 0 {
			k := sext(t.b.val, t.w)
			t.slo, t.shi = -(k - 1), k-1
			if t.a.slo >= 0 {
				t.slo = 0
				if t.a.shi < t.shi {
					t.shi = t.a.shi
				}
			}
			if t.a.shi <= 0 {
				t.shi = 0
			}
			t.syncFromS()
		}
	case OpUDiv:
		if t.b.op == OpConst && t.b.val > 0 {
			t.ulo, t.uhi = t.a.ulo/t.b.val, t.a.uhi/t.b.val
			t.syncFromU()
		}
	case OpURem:
		if t.b.op == OpConst && t.b.val > 0 {
			t.uhi = t.b.val - 1
			if t.a.uhi < t.uhi {
				t.uhi = t.a.uhi
			}
			t.syncFromU()
		}
	case OpBAnd:
		if t.b.op == OpConst {
			t.uhi = t.b.val
		}
		if t.a.uhi < t.uhi {
			t.uhi = t.a.uhi
		}
		t.syncFromU()
	case OpLShr:
		if t.b.op == OpConst && t.b.val < uint64(t.w) {
			t.ulo, t.uhi = t.a.ulo>>t.b.val, t.a.uhi>>t.b.val
			t.syncFromU()
		}
	case OpZExt:
		t.ulo, t.uhi = t.a.ulo, t.a.uhi
		t.syncFromU()
	case OpSExt:
		t.slo, t.shi = t.a.slo, t.a.shi
		t.syncFromS()
	case OpExtract:
		if t.val == 0 && t.a.uhi <= mask(t.w) {
			t.ulo, t.uhi = t.a.ulo, t.a.uhi
			t.syncFromU()
		} else if t.val == 0 && t.a.slo >= smin(t.w) && t.a.shi <= smax(t.w) {
			t.slo, t.shi = t.a.slo, t.a.shi
			t.syncFromS()
		}
	case OpIte:
		t.ulo, t.uhi = min(t.b.ulo, t.c.ulo), max(t.b.uhi, t.c.uhi)
		t.slo, t.shi = min(t.b.slo, t.c.slo), max(t.b.shi, t.c.shi)
	}
}

func (c *TCtx) Const(v uint64, w uint8) *Term {
	return c.mk(tkey{op: OpConst, w: w, val: v & mask(w)}, nil, nil, nil)
}

func (c *TCtx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

// Var makes a fresh (by name) variable with unsigned bounds.
func (c *TCtx) Var(name string, w uint8) *Term {
	return c.mk(tkey{op: OpVar, w: w, name: name}, nil, nil, nil)
}

func (c *TCtx) Not(a *Term) *Term {
	switch {
	case a.isTrue():
		return c.False
	case a.isFalse():
		return c.True
	case a.op == OpNot:
		return a.a
	}
	return c.node(OpNot, 0, 0, a, nil, nil)
}

func (c *TCtx) And(a, b *Term) *Term {
	if a.isFalse() || b.isFalse() {
		return c.False
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() || a == b {
		return a
	}
	if (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a) {
		return c.False
	}
	return c.node(OpAnd, 0, 0, a, b, nil)
}

func (c *TCtx) Or(a, b *Term) *Term {
	if a.isTrue() || b.isTrue() {
		return c.True
	}
	if a.isFalse() {
		return b
	}
	if b.isFalse() || a == b {
		return a
	}
	if (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a) {
		return c.True
	}
	return c.node(OpOr, 0, 0, a, b, nil)
}

func (c *TCtx) Ite(cond, a, b *Term) *Term {
	if cond.isTrue() || a == b {
		return a
	}
	if cond.isFalse() {
		return b
	}
	if a.w == 0 {
		if a.isTrue() && b.isFalse() {
			return cond
		}
		if a.isFalse() && b.isTrue() {
			return c.Not(cond)
		}
		if a.isTrue() {
			return c.Or(cond, b)
		}
		if a.isFalse() {
			return c.And(c.Not(cond), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(cond), a)
		}
		if b.isFalse() {
			return c.And(cond, a)
		}
	}
	if cond.op == OpNot {
		return c.Ite(cond.a, b, a)
	}
	return c.node(OpIte, a.w, 0, cond, a, b)
}

func (c *TCtx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.w != b.w {
		panic(engineBug(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w)))
	}
	if a.op == OpConst && b.op == OpConst {
		return c.Bool(a.val == b.val)
	}
	if a.w == 0 {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return c.Not(b)
		}
		if b.isFalse() {
			return c.Not(a)
		}
	} else if a.uhi < b.ulo || b.uhi < a.ulo || a.shi < b.slo || b.shi < a.slo {
		return c.False
	}
	if a.op == OpConst {
		a, b = b, a
	}
	// ite(c, k1, k2) = k3
	if b.op == OpConst && a.op == OpIte {
		if a.b.op == OpConst || a.c.op == OpConst {
			return c.Ite(a.a, c.Eq(a.b, b), c.Eq(a.c, b))
		}
	}
	if b.op == OpConst && (a.op == OpZExt) {
		if b.val > mask(a.a.w) {
			return c.False
		}
		return c.Eq(a.a, c.Const(b.val, a.a.w))
	}
	if b.op == OpConst && a.op == OpAdd && a.b.op == OpConst {
		return c.Eq(a.a, c.Const(b.val-a.b.val, a.w))
	}
	if a.op == OpAdd && b.op == OpAdd && a.b == b.b {
		return c.Eq(a.a, b.a)
	}
	if a.id > b.id && b.op != OpConst {
		a, b = b, a
	}
	return c.node(OpEq, 0, 0, a, b, nil)
}

func (c *TCtx) Add(a, b *Term) *Term {
	w := a.w
	if a.op == OpConst && b.op == OpConst {
		return c.Const(a.val+b.val, w)
	}
	if a.op == OpConst {
		a, b = b, a
	}
	if b.op == OpConst {
		if b.val == 0 {
			return a
		}
		if a.op == OpAdd && a.b.op == OpConst {
			return c.Add(a.a, c.Const(a.b.val+b.val, w))
		}
		if a.op == OpIte && a.b.op == OpConst && a.c.op == OpConst {
			return c.Ite(a.a, c.Add(a.b, b), c.Add(a.c, b))
		}
		return c.node(OpAdd, w, 0, a, b, nil)
	}
	if a.op == OpAdd && a.b.op == OpConst {
		return c.Add(c.Add(a.a, b), a.b)
	}
	if b.op == OpAdd && b.b.op == OpConst {
		return c.Add(c.Add(a, b.a), b.b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.node(OpAdd, w, 0, a, b, nil)
}

func (c *TCtx) Sub(a, b *Term) *Term {
	if a == b {
		return c.Const(0, a.w)
	}
	if b.op == OpConst {
		return c.Add(a, c.Const(-b.val, a.w))
	}
	if a.op == OpConst && b.op == OpConst {
		return c.Const(a.val-b.val, a.w)
	}
	return c.node(OpSub, a.w, 0, a, b, nil)
}

func (c *TCtx) Neg(a *Term) *Term {
	if a.op == OpConst {
		return c.Const(-a.val, a.w)
	}
	return c.node(OpNeg, a.w, 0, a, nil, nil)
}

func (c *TCtx) BNot(a *Term) *Term {
	if a.op == OpConst {
		return c.Const(^a.val, a.w)
	}
	return c.node(OpBNot, a.w, 0, a, nil, nil)
}

func (c *TCtx) Mul(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		return c.Const(a.val*b.val, a.w)
	}
	if a.op == OpConst {
		a, b = b, a
	}
	if b.op == OpConst {
		if b.val == 0 {
			return b
		}
		if b.val == 1 {
			return a
		}
	}
	return c.node(OpMul, a.w, 0, a, b, nil)
}

// mulNoOv reports whether t = x*k without signed overflow, and returns x,k.
func mulNoOv(t *Term) (*Term, int64, bool) {
	if t.op != OpMul || t.b.op != OpConst {
		return nil, 0, false
	}
	k := sext(t.b.val, t.w)
	lo, o1 := mulOv(t.a.slo, k)
	hi, o2 := mulOv(t.a.shi, k)
	if o1 || o2 || !inW(lo, t.w) || !inW(hi, t.w) {
		return nil, 0, false
	}
	return t.a, k, true
}

// splitMul: a = x*kk + rest without overflow, a >= 0, kk a multiple of k > 0;
// then a/k = x*(kk/k) + floor(rest/k), with rest a constant or non-negative.
func (c *TCtx) splitMul(a *Term, k int64) (*Term, *Term, bool) {
	if k <= 0 || a.op != OpAdd {
		return nil, nil, false
	}
	lo, o1 := addOv(a.a.slo, a.b.slo)
	hi, o2 := addOv(a.a.shi, a.b.shi)
	if o1 || o2 || !inW(lo, a.w) || !inW(hi, a.w) || lo < 0 {
		return nil, nil, false
	}
	for _, p := range [][2]*Term{{a.a, a.b}, {a.b, a.a}} {
		x, kk, ok := mulNoOv(p[0])
		if !ok || kk%k != 0 {
			continue
		}
		m := c.Mul(x, c.Const(uint64(kk/k), a.w))
		if p[1].op == OpConst {
			r := sext(p[1].val, a.w)
			q := r / k
			if r%k < 0 {
				q--
			}
			return m, c.Const(uint64(q), a.w), true
		}
		if p[1].slo >= 0 {
			return m, c.SDiv(p[1], c.Const(uint64(k), a.w)), true
		}
	}
	return nil, nil, false
}

func (c *TCtx) SDiv(a, b *Term) *Term {
	if b.op == OpConst && b.val != 0 {
		k := sext(b.val, b.w)
		if a.op == OpConst {
			if k == -1 {
				return c.Const(-a.val, a.w)
			}
			return c.Const(uint64(sext(a.val, a.w)/k), a.w)
		}
		if k == 1 {
			return a
		}
		if x, kk, ok := mulNoOv(a); ok && k > 0 && kk%k == 0 {
			return c.Mul(x, c.Const(uint64(kk/k), a.w))
		}
		if m, r, ok := c.splitMul(a, k); ok {
			return c.Add(m, r)
		}
		// (x*k + r) / k with 0<=r<k, x*k>=0
		if a.op == OpAdd && k > 0 {
			if x, kk, ok := mulNoOv(a.a); ok && kk == k && a.b.slo >= 0 && a.b.shi < k && x.slo >= 0 && a.slo >= 0 {
				return x
			}
			if x, kk, ok := mulNoOv(a.b); ok && kk == k && a.a.slo >= 0 && a.a.shi < k && x.slo >= 0 && a.slo >= 0 {
				return x
			}
		}
		if k > 0 && a.slo >= 0 && a.shi < k {
			return c.Const(0, a.w)
		}
	}
	return c.node(OpSDiv, a.w, 0, a, b, nil)
}

func (c *TCtx) SRem(a, b *Term) *Term {
	if b.op == OpConst && b.val != 0 {
		k := sext(b.val, b.w)
		if a.op == OpConst {
			if k == -1 {
				return c.Const(0, a.w)
			}
			return c.Const(uint64(sext(a.val, a.w)%k), a.w)
		}
		if k == 1 || k == -1 {
			return c.Const(0, a.w)
		}
		if _, kk, ok := mulNoOv(a); ok && kk%k == 0 {
			return c.Const(0, a.w)
		}
		if m, r, ok := c.splitMul(a, k); ok {
			// a - (m+r)*k = rest - r*k
			_ = m
			rest := a.b
			if _, kk, ok := mulNoOv(a.a); !ok || kk%k != 0 {
				rest = a.a
			}
			if r.op == OpConst && rest.op == OpConst {
				return c.Const(rest.val-r.val*uint64(k), a.w)
			}
			return c.SRem(rest, b)
		}
		if k > 0 && a.slo >= 0 && a.shi < k {
			return a
		}
	}
	return c.node(OpSRem, a.w, 0, a, b, nil)
}

func (c *TCtx) UDiv(a, b *Term) *Term {
	if b.op == OpConst && b.val != 0 {
		if a.op == OpConst {
			return c.Const(a.val/b.val, a.w)
		}
		if b.val == 1 {
			return a
		}
		if bits.OnesCount64(b.val) == 1 {
			return c.LShr(a, c.Const(uint64(bits.TrailingZeros64(b.val)), a.w))
		}
	}
	return c.node(OpUDiv, a.w, 0, a, b, nil)
}

func (c *TCtx) URem(a, b *Term) *Term {
	if b.op == OpConst && b.val != 0 {
		if a.op == OpConst {
			return c.Const(a.val%b.val, a.w)
		}
		if bits.OnesCount64(b.val) == 1 {
			return c.BAnd(a, c.Const(b.val-1, a.w))
		}
		if a.uhi < b.val {
			return a
		}
	}
	return c.node(OpURem, a.w, 0, a, b, nil)
}

func (c *TCtx) Shl(a, b *Term) *Term {
	if b.op == OpConst {
		if b.val >= uint64(a.w) {
			return c.Const(0, a.w)
		}
		if b.val == 0 {
			return a
		}
		if a.op == OpConst {
			return c.Const(a.val<<b.val, a.w)
		}
		// keep as concat(extract(a), 0)
		lo := c.Extract(a, 0, a.w-uint8(b.val))
		return c.Concat(lo, c.Const(0, uint8(b.val)))
	}
	return c.node(OpShl, a.w, 0, a, b, nil)
}

func (c *TCtx) LShr(a, b *Term) *Term {
	if b.op == OpConst {
		if b.val >= uint64(a.w) {
			return c.Const(0, a.w)
		}
		if b.val == 0 {
			return a
		}
		if a.op == OpConst {
			return c.Const(a.val>>b.val, a.w)
		}
		hi := c.Extract(a, uint8(b.val), a.w-uint8(b.val))
		return c.ZExt(hi, a.w)
	}
	return c.node(OpLShr, a.w, 0, a, b, nil)
}

func (c *TCtx) AShr(a, b *Term) *Term {
	if b.op == OpConst {
		n := b.val
		if n >= uint64(a.w) {
			n = uint64(a.w) - 1
		}
		if n == 0 {
			return a
		}
		if a.op == OpConst {
			return c.Const(uint64(sext(a.val, a.w)>>n), a.w)
		}
		if a.slo >= 0 {
			return c.LShr(a, c.Const(n, a.w))
		}
		return c.SExt(c.Extract(a, uint8(n), a.w-uint8(n)), a.w)
	}
	return c.node(OpAShr, a.w, 0, a, b, nil)
}

func (c *TCtx) BAnd(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.op == OpConst && b.op == OpConst {
		return c.Const(a.val&b.val, a.w)
	}
	if a.op == OpConst {
		a, b = b, a
	}
	if b.op == OpConst {
		if b.val == 0 {
			return b
		}
		if b.val == mask(a.w) {
			return a
		}
		// low mask
		if n := uint8(bits.Len64(b.val)); b.val == mask(n) && n > 0 {
			if a.uhi <= b.val {
				return a
			}
			return c.ZExt(c.Extract(a, 0, n), a.w)
		}
	}
	if a.id > b.id && b.op != OpConst {
		a, b = b, a
	}
	return c.node(OpBAnd, a.w, 0, a, b, nil)
}

// bitsOf tells which bits may be non-zero in t (conservative).
func mayBits(t *Term) uint64 {
	switch t.op {
	case OpConst:
		return t.val
	case OpZExt:
		return mayBits(t.a)
	case OpConcat:
		return mayBits(t.a)<<t.b.w | mayBits(t.b)
	case OpBOr:
		return mayBits(t.a) | mayBits(t.b)
	case OpBAnd:
		return mayBits(t.a) & mayBits(t.b)
	}
	n := uint8(bits.Len64(t.uhi))
	if n == 0 {
		return 0
	}
	return mask(n)
}

func (c *TCtx) BOr(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.op == OpConst && b.op == OpConst {
		return c.Const(a.val|b.val, a.w)
	}
	if a.op == OpConst {
		a, b = b, a
	}
	if b.op == OpConst {
		if b.val == 0 {
			return a
		}
		if b.val == mask(a.w) {
			return b
		}
	}
	// disjoint or of pieces: rebuild as concat when the pieces split at a bit
	// boundary (big/little endian integer assembly)
	ma, mb := mayBits(a), mayBits(b)
	if ma&mb == 0 && ma != 0 && mb != 0 {
		if ma < mb {
			a, b = b, a
			ma, mb = mb, ma
		}
		n := uint8(bits.Len64(mb))
		if ma&mask(n) == 0 {
			hi := c.Extract(a, n, a.w-n)
			lo := c.Extract(b, 0, n)
			return c.Concat(hi, lo)
		}
	}
	if a.id > b.id && b.op != OpConst {
		a, b = b, a
	}
	return c.node(OpBOr, a.w, 0, a, b, nil)
}

func (c *TCtx) BXor(a, b *Term) *Term {
	if a == b {
		return c.Const(0, a.w)
	}
	if a.op == OpConst && b.op == OpConst {
		return c.Const(a.val^b.val, a.w)
	}
	if a.op == OpConst {
		a, b = b, a
	}
	if b.op == OpConst && b.val == 0 {
		return a
	}
	if b.op == OpConst && b.val == mask(a.w) {
		return c.BNot(a)
	}
	if a.id > b.id && b.op != OpConst {
		a, b = b, a
	}
	return c.node(OpBXor, a.w, 0, a, b, nil)
}

func (c *TCtx) Ult(a, b *Term) *Term {
	if a == b || a.ulo >= b.uhi {
		return c.False
	}
	if a.uhi < b.ulo {
		return c.True
	}
	return c.node(OpUlt, 0, 0, a, b, nil)
}

func (c *TCtx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }

func (c *TCtx) Slt(a, b *Term) *Term {
	if a == b || a.slo >= b.shi {
		return c.False
	}
	if a.shi < b.slo {
		return c.True
	}
	return c.node(OpSlt, 0, 0, a, b, nil)
}

func (c *TCtx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

func (c *TCtx) Concat(a, b *Term) *Term {
	w := a.w + b.w
	if w > 64 {
		panic(engineBug("concat > 64"))
	}
	if a.op == OpConst && b.op == OpConst {
		return c.Const(a.val<<b.w|b.val, w)
	}
	if a.op == OpConst && a.val == 0 {
		return c.ZExt(b, w)
	}
	// adjacent extracts of the same term
	if a.op == OpExtract && b.op == OpExtract && a.a == b.a && a.val == b.val+uint64(b.w) {
		return c.Extract(a.a, uint8(b.val), w)
	}
	// b = concat(x,y) with a,x adjacent
	if b.op == OpConcat && a.op == OpExtract && b.a.op == OpExtract && a.a == b.a.a && a.val == b.a.val+uint64(b.a.w) {
		return c.Concat(c.Extract(a.a, uint8(b.a.val), a.w+b.a.w), b.b)
	}
	if a.op == OpConcat && b.op == OpExtract && a.b.op == OpExtract && a.b.a == b.a && a.b.val == b.val+uint64(b.w) {
		return c.Concat(a.a, c.Extract(b.a, uint8(b.val), a.b.w+b.w))
	}
	if b.op == OpZExt {
		return c.Concat(c.Concat(a, c.Const(0, b.w-b.a.w)), b.a)
	}
	return c.node(OpConcat, w, 0, a, b, nil)
}

func (c *TCtx) Extract(a *Term, lo, w uint8) *Term {
	if lo == 0 && w == a.w {
		return a
	}
	switch a.op {
	case OpConst:
		return c.Const(a.val>>lo, w)
	case OpExtract:
		return c.Extract(a.a, uint8(a.val)+lo, w)
	case OpConcat:
		if lo >= a.b.w {
			return c.Extract(a.a, lo-a.b.w, w)
		}
		if lo+w <= a.b.w {
			return c.Extract(a.b, lo, w)
		}
		return c.Concat(c.Extract(a.a, 0, lo+w-a.b.w), c.Extract(a.b, lo, a.b.w-lo))
	case OpZExt:
		if lo >= a.a.w {
			return c.Const(0, w)
		}
		if lo+w <= a.a.w {
			return c.Extract(a.a, lo, w)
		}
		return c.ZExt(c.Extract(a.a, lo, a.a.w-lo), w)
	case OpSExt:
		if lo+w <= a.a.w {
			return c.Extract(a.a, lo, w)
		}
		if lo == 0 && w > a.a.w {
			return c.SExt(a.a, w)
		}
	case OpIte:
		if a.b.op == OpConst || a.c.op == OpConst {
			return c.Ite(a.a, c.Extract(a.b, lo, w), c.Extract(a.c, lo, w))
		}
	case OpBAnd, OpBOr, OpBXor:
		x, y := c.Extract(a.a, lo, w), c.Extract(a.b, lo, w)
		switch a.op {
		case OpBAnd:
			return c.BAnd(x, y)
		case OpBOr:
			return c.BOr(x, y)
		default:
			return c.BXor(x, y)
		}
	case OpAdd, OpSub, OpMul:
		if lo == 0 {
			x, y := c.Extract(a.a, 0, w), c.Extract(a.b, 0, w)
			switch a.op {
			case OpAdd:
				return c.Add(x, y)
			case OpSub:
				return c.Sub(x, y)
			default:
				return c.Mul(x, y)
			}
		}
	}
	return c.node(OpExtract, w, uint64(lo), a, nil, nil)
}

func (c *TCtx) ZExt(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if a.op == OpConst {
		return c.Const(a.val, w)
	}
	if a.op == OpZExt {
		return c.ZExt(a.a, w)
	}
	if a.op == OpExtract && a.val == 0 && a.a.w == w && a.a.uhi <= mask(a.w) {
		return a.a
	}
	return c.node(OpZExt, w, 0, a, nil, nil)
}

func (c *TCtx) SExt(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if a.op == OpConst {
		return c.Const(uint64(sext(a.val, a.w)), w)
	}
	if a.slo >= 0 {
		return c.ZExt(a, w)
	}
	if a.op == OpExtract && a.val == 0 && a.a.w == w && a.a.slo >= smin(a.w) && a.a.shi <= smax(a.w) {
		return a.a
	}
	return c.node(OpSExt, w, 0, a, nil, nil)
}

// Model assigns variables by name.
type Model map[string]uint64

// Eval evaluates t under m; variables not in m take their lower bound.
func (c *TCtx) Eval(t *Term, m Model) uint64 {
	return c.eval(t, m)
}

// NewEval invalidates memoised evaluations (call when the model changes).
func (c *TCtx) NewEval() { c.stamp++ }

func (c *TCtx) eval(t *Term, m Model) uint64 {
	if t.op == OpConst {
		return t.val
	}
	if t.stamp == c.stamp {
		return t.ev
	}
	var r uint64
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case OpVar:
		v, ok := m[t.name]
		if !ok {
			v = t.ulo
		}
		r = v
	case OpNot:
		r = 1 - c.eval(t.a, m)
	case OpAnd:
		r = c.eval(t.a, m) & c.eval(t.b, m)
	case OpOr:
		r = c.eval(t.a, m) | c.eval(t.b, m)
	case OpEq:
		r = b2u(c.eval(t.a, m) == c.eval(t.b, m))
	case OpIte:
		if c.eval(t.a, m) == 1 {
			r = c.eval(t.b, m)
		} else {
			r = c.eval(t.c, m)
		}
	case OpNeg:
		r = -c.eval(t.a, m)
	case OpBNot:
		r = ^c.eval(t.a, m)
	case OpExtract:
		r = c.eval(t.a, m) >> t.val
	case OpZExt:
		r = c.eval(t.a, m)
	case OpSExt:
		r = uint64(sext(c.eval(t.a, m), t.a.w))
	case OpConcat:
		r = c.eval(t.a, m)<<t.b.w | c.eval(t.b, m)
	default:
		x, y := c.eval(t.a, m), c.eval(t.b, m)
		w := t.a.w
		switch t.op {
		case OpAdd:
			r = x + y
		case OpSub:
			r = x - y
		case OpMul:
			r = x * y
		case OpUDiv:
			if y == 0 {
				r = mask(w)
			} else {
				r = x / y
			}
		case OpURem:
			if y == 0 {
				r = x
			} else {
				r = x % y
			}
		case OpSDiv:
			sx, sy := sext(x, w), sext(y, w)
			if sy == 0 {
				if sx >= 0 {
					r = mask(w)
				} else {
					r = 1
				}
			} else if sy == -1 {
				r = uint64(-sx)
			} else {
				r = uint64(sx / sy)
			}
		case OpSRem:
			sx, sy := sext(x, w), sext(y, w)
			if sy == 0 {
				r = x
			} else if sy == -1 {
				r = 0
			} else {
				r = uint64(sx % sy)
			}
		case OpShl:
			if y < uint64(w) {
				r = x << y
			}
		case OpLShr:
			if y < uint64(w) {
				r = x >> y
			}
		case OpAShr:
			if y >= uint64(w) {
				y = uint64(w) - 1
			}
			r = uint64(sext(x, w) >> y)
		case OpBAnd:
			r = x & y
		case OpBOr:
			r = x | y
		case OpBXor:
			r = x ^ y
		case OpUlt:
			r = b2u(x < y)
		case OpUle:
			r = b2u(x <= y)
		case OpSlt:
			r = b2u(sext(x, w) < sext(y, w))
		case OpSle:
			r = b2u(sext(x, w) <= sext(y, w))
		default:
			panic(engineBug("eval op"))
		}
	}
	r &= mask(t.w)
	t.stamp = c.stamp
	t.ev = r
	return r
}

// String renders a term for reports (bounded depth).
func (t *Term) String() string { return t.str(6) }

func (t *Term) str(d int) string {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			return fmt.Sprint(t.val == 1)
		}
		return fmt.Sprintf("%d", sext(t.val, t.w))
	case OpVar:
		return t.name
	}
	if d == 0 {
		return "…"
	}
	switch t.op {
	case OpExtract:
		return fmt.Sprintf("%s[%d:%d]", t.a.str(d-1), int(t.val)+int(t.w)-1, t.val)
	case OpZExt, OpSExt:
		return t.a.str(d - 1)
	}
	var sb strings.Builder
	sb.WriteString("(" + strings.TrimPrefix(opName[t.op], "bv"))
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteString(" " + x.str(d-1))
		}
	}
	sb.WriteString(")")
	return sb.String()
}
