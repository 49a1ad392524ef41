package checks

import (
	"fmt"
	"math/big"
	"time"

	iotago "github.com/iotaledger/iota.go/v4"

	"verif.local/mc/core"
	"verif.local/mc/gen"
	"verif.local/mc/ref"
)

func init() { All["P13"], All["P14"] = p13, p14 }

const maxSlot = uint64(0xffffffff)

// tm is the model of slots, epochs and times for one parameter set, in exact arithmetic.
type tm struct {
	genesis uint64
	unix    int64
	dur     int64
	exp     uint
}

func (m tm) String() string {
	return fmt.Sprintf("genesis slot %d, time %d, %d s, 2^%d", m.genesis, m.unix, m.dur, m.exp)
}

func (m tm) len() uint64 { return 1 << m.exp }

// start is the first nanosecond of a slot after genesis.
func (m tm) start(slot uint64) *big.Int {
	t := new(big.Int).SetUint64(slot - m.genesis - 1)
	t.Mul(t, big.NewInt(m.dur))
	t.Add(t, big.NewInt(m.unix))
	return t.Mul(t, big.NewInt(1e9))
}

func (m tm) slotOf(ns *big.Int) uint64 {
	d := new(big.Int).Sub(ns, new(big.Int).Mul(big.NewInt(m.unix), big.NewInt(1e9)))
	if d.Sign() < 0 {
		return m.genesis
	}
	d.Div(d, big.NewInt(1e9))
	d.Div(d, big.NewInt(m.dur))
	return m.genesis + d.Uint64() + 1
}

func (m tm) epoch(slot uint64) uint64 {
	if slot <= m.genesis {
		return 0
	}
	return (slot - m.genesis) / m.len()
}

func (m tm) epochStart(e uint64) uint64 { return m.genesis + e*m.len() }

func toNS(t time.Time) *big.Int {
	n := new(big.Int).Mul(big.NewInt(t.Unix()), big.NewInt(1e9))
	return n.Add(n, big.NewInt(int64(t.Nanosecond())))
}

func fromNS(n *big.Int) time.Time {
	s, r := new(big.Int).DivMod(n, big.NewInt(1e9), new(big.Int))
	return time.Unix(s.Int64(), r.Int64())
}

// inRange tells whether time.Duration can represent the distance of the time to genesis (292 years).
func (m tm) inRange(ns *big.Int) bool {
	d := new(big.Int).Sub(ns, new(big.Int).Mul(big.NewInt(m.unix), big.NewInt(1e9)))
	return d.IsInt64()
}

func p13(x *core.Ctx) {
	x.Assume("times within 292 years of genesis (the range of time.Duration) and slots and epochs whose bounds fit into 32 bits")
	var ms []tm
	for _, g := range []uint64{0, 1, 5, 8, 1000, 1 << 31, maxSlot - 300} {
		for _, u := range []int64{0, 1, -5, 1_600_000_000, 1 << 33} {
			for _, d := range []int64{1, 3, 10, 255} {
				for _, e := range []uint{0, 1, 3, 4, 13} {
					ms = append(ms, tm{g, u, d, e})
				}
			}
		}
	}
	mDim := core.DV("parameters", ms)
	mk := func(m tm) *iotago.TimeProvider {
		return iotago.NewTimeProvider(iotago.SlotIndex(m.genesis), m.unix, m.dur, uint8(m.exp))
	}
	// slot alphabet relative to genesis: a full window, plus the neighbourhood of far epoch boundaries and the last slots
	window := core.Pick(x, 70, 300)
	slotOf := func(m tm, k int) (uint64, bool) {
		var s int64
		switch {
		case k < window:
			s = int64(m.genesis) + int64(k) - 3
		case k < window+21:
			s = int64(m.epochStart([]uint64{100, 4000, 1 << 15}[(k-window)/7])) + int64((k-window)%7) - 3
		default:
			s = int64(maxSlot) - int64(k-window-21)
		}
		return uint64(s), s >= 0 && uint64(s) <= maxSlot
	}
	nSlots := window + 21 + 20
	x.Product("slots", []core.Dim{mDim, core.DV("slot", seq(nSlots))}, func(v []int, c *core.C) {
		m := ms[v[0]]
		tp := mk(m)
		s, ok := slotOf(m, v[1])
		if !ok {
			c.Skip()
			return
		}
		slot := iotago.SlotIndex(s)
		c.Note("slot %d", s)
		c.Step(8)
		c.Check(uint64(tp.GenesisSlot()) == m.genesis && tp.GenesisUnixTime() == m.unix && tp.SlotDurationSeconds() == m.dur && uint64(tp.EpochDurationSlots()) == m.len() &&
			tp.EpochDurationSeconds() == m.dur<<m.exp && uint(tp.SlotsPerEpochExponent()) == m.exp && tp.GenesisTime().Equal(time.Unix(m.unix, 0)), "getters", "the provider does not report its parameters")
		// time <-> slot
		st, en := tp.SlotStartTime(slot), tp.SlotEndTime(slot)
		if s <= m.genesis {
			c.Outcome("genesis or earlier")
			g := new(big.Int).Sub(new(big.Int).Mul(big.NewInt(m.unix), big.NewInt(1e9)), big.NewInt(1))
			c.Check(toNS(st).Cmp(g) == 0 && toNS(en).Cmp(g) == 0, "genesis slot time", "start %v and end %v of slot %d are not the moment before genesis", st, en, s)
			c.Check(uint64(tp.SlotFromTime(st)) == m.genesis && uint64(tp.SlotFromTime(en)) == m.genesis, "genesis slot from time", "the moment before genesis is slot %d", tp.SlotFromTime(st))
		} else {
			c.Outcome("after genesis")
			ws := m.start(s)
			we := new(big.Int).Sub(m.start(s+1), big.NewInt(1))
			c.Check(toNS(st).Cmp(ws) == 0, "slot start", "start of slot %d is %v, want %v", s, toNS(st), ws)
			c.Check(toNS(en).Cmp(we) == 0, "slot end", "end of slot %d is %v, want %v", s, toNS(en), we)
			for _, off := range []int64{-1, 0, 1, 999999999, 1000000000, m.dur * 1e9 / 2, m.dur*1e9 - 1, m.dur * 1e9, m.dur*1e9 + 1} {
				t := new(big.Int).Add(ws, big.NewInt(off))
				w := m.slotOf(t)
				if w > maxSlot || !m.inRange(t) {
					continue
				}
				got := uint64(tp.SlotFromTime(fromNS(t)))
				c.Check(got == w, "slot from time", "time %v ns is in slot %d, want %d", t, got, w)
				got = uint64(tp.SlotFromTime(fromNS(t).UTC()))
				c.Check(got == w, "slot from time zone", "time %v ns (UTC) is in slot %d, want %d", t, got, w)
				got = uint64(tp.SlotFromTime(fromNS(t).In(time.FixedZone("z", 5*3600+1800))))
				c.Check(got == w, "slot from time zone", "time %v ns (zone) is in slot %d, want %d", t, got, w)
			}
		}
		// slot <-> epoch
		e := m.epoch(s)
		got := uint64(tp.EpochFromSlot(slot))
		c.Check(got == e, "epoch from slot", "slot %d is in epoch %d, want %d", s, got, e)
		es, ee := m.epochStart(e), m.epochStart(e+1)-1
		if ee <= maxSlot {
			gs, ge := uint64(tp.EpochStart(iotago.EpochIndex(e))), uint64(tp.EpochEnd(iotago.EpochIndex(e)))
			c.Check(gs == es && ge == ee, "epoch bounds", "epoch %d spans slots %d to %d, want %d to %d", e, gs, ge, es, ee)
			c.Check(uint64(tp.EpochFromSlot(iotago.SlotIndex(gs))) == e && uint64(tp.EpochFromSlot(iotago.SlotIndex(ge))) == e, "epoch bounds map back", "the bounds of epoch %d do not map back to it", e)
			if s >= m.genesis {
				c.Check(gs <= s && s <= ge, "epoch contains slot", "slot %d lies outside its epoch %d (%d to %d)", s, e, gs, ge)
			}
			// distances
			b, a := uint64(tp.SlotsBeforeNextEpoch(slot)), uint64(tp.SlotsSinceEpochStart(slot))
			wb, wa := ee+1-s, s-es
			if s < m.genesis {
				wb, wa = 0, 0
			}
			if b != wb {
				if s >= m.genesis && b == (wb+m.genesis)&maxSlot {
					c.Fail("SlotsBeforeNextEpoch adds the genesis slot", "slot %d: %d slots before the next epoch, want %d", s, b, wb)
				} else {
					c.Fail("slots before next epoch", "slot %d: %d slots before the next epoch, want %d", s, b, wb)
				}
			}
			if a != wa {
				if s >= m.genesis && a == (wa+m.genesis)&maxSlot {
					c.Fail("SlotsSinceEpochStart adds the genesis slot", "slot %d: %d slots since the epoch started, want %d", s, a, wa)
				} else {
					c.Fail("slots since epoch start", "slot %d: %d slots since the epoch started, want %d", s, a, wa)
				}
			}
		}
	})
	epochs := []uint64{}
	for i := uint64(0); i < 40; i++ {
		epochs = append(epochs, i)
	}
	for k := uint(6); k < 32; k++ {
		epochs = append(epochs, 1<<k-1, 1<<k, 1<<k+1)
	}
	x.Product("epochs", []core.Dim{mDim, core.DV("epoch", epochs)}, func(v []int, c *core.C) {
		m := ms[v[0]]
		e := epochs[v[1]]
		if m.epochStart(e+1)-1 > maxSlot {
			c.Skip()
			return
		}
		tp := mk(m)
		gs, ge := uint64(tp.EpochStart(iotago.EpochIndex(e))), uint64(tp.EpochEnd(iotago.EpochIndex(e)))
		c.Check(gs == m.epochStart(e) && ge == m.epochStart(e+1)-1, "epoch bounds", "epoch %d spans slots %d to %d, want %d to %d", e, gs, ge, m.epochStart(e), m.epochStart(e+1)-1)
		c.Check(uint64(tp.EpochFromSlot(iotago.SlotIndex(gs))) == e && uint64(tp.EpochFromSlot(iotago.SlotIndex(ge))) == e, "epoch bounds map back", "the bounds of epoch %d do not map back to it", e)
		if gs > m.genesis {
			c.Check(uint64(tp.EpochFromSlot(iotago.SlotIndex(gs-1))) == e-1, "epochs are adjacent", "slot before epoch %d is not in the epoch before", e)
		}
		if ge < maxSlot {
			c.Check(uint64(tp.EpochFromSlot(iotago.SlotIndex(ge+1))) == e+1, "epochs are adjacent", "slot after epoch %d is not in the next epoch", e)
		}
	})
	// arbitrary moments around genesis
	ds := []int64{}
	for _, b := range []int64{0, 1, 500, 1e6, 1e9, 3e9, 10e9, 255e9, 3600e9, 86400e9 * 365, 86400e9 * 365 * 200} {
		ds = append(ds, b, b+1, b-1, -b-1)
	}
	x.Product("moments", []core.Dim{mDim, core.DV("distance to genesis (ns)", ds)}, func(v []int, c *core.C) {
		m := ms[v[0]]
		t := new(big.Int).Add(new(big.Int).Mul(big.NewInt(m.unix), big.NewInt(1e9)), big.NewInt(ds[v[1]]))
		w := m.slotOf(t)
		if w > maxSlot {
			c.Skip()
			return
		}
		got := uint64(mk(m).SlotFromTime(fromNS(t)))
		c.Check(got == w, "slot from time", "time %v ns is in slot %d, want %d", t, got, w)
	})
	// the API hands out a provider with the parameters of the protocol
	x.Product("provider of the API", []core.Dim{core.DV("genesis slot", []uint32{0, 1, 9}), core.DV("genesis time", []int64{0, 77, 1_700_000_000}), core.DV("duration", []uint8{7, 10, 255}), core.DV("exponent", []uint8{3, 4, 13})}, func(v []int, c *core.C) {
		p := ref.Default()
		p.GenesisSlot = []uint32{0, 1, 9}[v[0]]
		p.GenesisUnix = []int64{0, 77, 1_700_000_000}[v[1]]
		p.SlotDur = []uint8{7, 10, 255}[v[2]]
		p.EpochExp = []uint8{3, 4, 13}[v[3]]
		p.LiveLower, p.LiveUpper = 1, 2
		tp := gen.NewEnv(p).API.TimeProvider()
		c.Check(uint32(tp.GenesisSlot()) == p.GenesisSlot && tp.GenesisUnixTime() == p.GenesisUnix && tp.SlotDurationSeconds() == int64(p.SlotDur) && tp.SlotsPerEpochExponent() == p.EpochExp && uint64(tp.EpochDurationSlots()) == 1<<p.EpochExp,
			"provider parameters", "the API's time provider has other parameters")
	})
}

// manaSet is one parameter set of the mana model.
type manaSet struct {
	name string
	p    ref.Params
}

func (m manaSet) String() string { return m.name }

func (m *manaSet) provider() *iotago.ManaDecayProvider {
	p := &m.p
	return iotago.NewManaDecayProvider(iotago.NewTimeProvider(iotago.SlotIndex(p.GenesisSlot), p.GenesisUnix, int64(p.SlotDur), p.EpochExp), p.EpochExp, &iotago.ManaParameters{
		BitsCount: p.Bits, GenerationRate: p.GenRate, GenerationRateExponent: p.GenExp, DecayFactors: p.DecayFactors, DecayFactorsExponent: p.DecayExp,
		DecayFactorEpochsSum: p.DecaySum, DecayFactorEpochsSumExponent: p.SumExp, AnnualDecayFactorPercentage: p.AnnualPct})
}

func manaSets() []*manaSet {
	var out []*manaSet
	add := func(n string, f func(*ref.Params)) {
		p := ref.Default()
		f(&p)
		out = append(out, &manaSet{n, p})
	}
	derived := func(p *ref.Params, opts ...func()) {
		pp := iotago.NewV3SnapshotProtocolParameters(iotago.WithTimeProviderOptions(iotago.SlotIndex(p.GenesisSlot), p.GenesisUnix, p.SlotDur, p.EpochExp), iotago.WithLivenessOptions(1, 2, 1, 3, 5),
			iotago.WithSupplyOptions(iotago.BaseToken(p.Supply), p.Bits, p.GenRate, p.GenExp, p.DecayExp, p.SumExp, p.AnnualPct))
		p.DecayFactors, p.DecaySum = pp.ManaParameters().DecayFactors, pp.ManaParameters().DecayFactorEpochsSum
	}
	add("small", func(p *ref.Params) {})
	add("no decay table", func(p *ref.Params) { p.DecayFactors = []uint32{} })
	add("one decay factor", func(p *ref.Params) { p.DecayFactors = []uint32{0xf0000000} })
	add("table of 365, 31 bits", func(p *ref.Params) {
		p.DecayFactors, p.DecayExp = nil, 31
		for i := 0; i < 365; i++ {
			p.DecayFactors = append(p.DecayFactors, uint32(1<<31-1-uint32(i)*1000003))
		}
	})
	add("16 bit factors", func(p *ref.Params) { p.DecayFactors, p.DecayExp = []uint32{65000, 64000, 63000, 0, 1}, 16 })
	add("no generation", func(p *ref.Params) { p.GenRate = 0 })
	add("rate 255", func(p *ref.Params) { p.GenRate, p.GenExp, p.DecaySum = 255, 20, 1<<24 })
	add("testnet", func(p *ref.Params) {
		p.Supply, p.SlotDur, p.EpochExp, p.GenExp, p.SumExp = 1813620509061365, 10, 13, 17, 21
		derived(p)
	})
	add("mainnet", func(p *ref.Params) {
		p.Supply, p.SlotDur, p.EpochExp, p.GenExp, p.SumExp = 4600000000000000, 10, 13, 17, 21
		derived(p)
	})
	add("epochs of 2^30 slots", func(p *ref.Params) {
		p.Supply, p.EpochExp, p.GenRate, p.GenExp, p.DecayFactors, p.DecaySum = 1<<40, 30, 255, 60, []uint32{0x80000000, 0x40000000}, 1
	})
	add("genesis slot 7", func(p *ref.Params) { p.GenesisSlot = 7 })
	return out
}

func manaAmounts(few, step int) (out []uint64) {
	for k := uint(0); k < 64; k++ {
		out = append(out, 1<<k-1, 1<<k, 1<<k+1)
	}
	for k := uint64(0); k < uint64(few); k++ {
		out = append(out, k)
	}
	for a := 0; a < 64; a += step {
		for b := 0; b < a; b += step {
			out = append(out, 1<<a+1<<b, 1<<a-1<<b)
		}
	}
	out = append(out, ^uint64(0), ^uint64(0)-1, 1813620509061365, 4600000000000000, 1000000, 0xdeadbeefcafebabe)
	// ascending, distinct
	for i := range out {
		for j := i; j > 0 && out[j] < out[j-1]; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	d := out[:1]
	for _, v := range out[1:] {
		if v != d[len(d)-1] {
			d = append(d, v)
		}
	}
	return d
}

var max64 = new(big.Int).SetUint64(^uint64(0))

// fits tells whether every intermediate value of the generation formula fits into 64 bits.
func (m *manaSet) fits(amount uint64, from, to uint32) bool {
	p := &m.p
	big64 := func(v *big.Int) bool { return v.Cmp(max64) <= 0 }
	g := func(s uint64) *big.Int {
		t := new(big.Int).Mul(new(big.Int).SetUint64(amount), new(big.Int).SetUint64(s))
		t.Mul(t, big.NewInt(int64(p.GenRate)))
		return t.Rsh(t, uint(p.GenExp))
	}
	if from > to {
		return true
	}
	ef, et := p.Epoch(from), p.Epoch(to)
	if ef == et {
		return big64(g(uint64(to - from)))
	}
	if !big64(g(p.Before(from))) || !big64(g(p.Since(to))) {
		return false
	}
	if et-ef == 1 {
		return true
	}
	c := new(big.Int).Mul(new(big.Int).SetUint64(amount), new(big.Int).SetUint64(uint64(p.DecaySum)))
	c.Mul(c, big.NewInt(int64(p.GenRate)))
	c.Rsh(c, uint(p.SumExp)+uint(p.GenExp)-uint(p.EpochExp))
	// the sums of two parts are part of the formula as well
	return big64(new(big.Int).Add(c, new(big.Int).Add(g(p.Before(from)), g(p.Since(to)))))
}

func p14(x *core.Ctx) {
	x.Assume("decay factors are below 1 (less than 2^exponent) and exponents satisfy the library's own sanity checks (sum exponent + generation exponent >= epoch exponent, decay exponents at most 32)")
	x.Assume("an error is accepted instead of a value when an intermediate result of the formula exceeds 64 bits")
	sets := manaSets()
	amounts := manaAmounts(core.Pick(x, 100, 3000), core.Pick(x, 5, 2))
	setDim := core.DV("parameters", sets)
	diffs := []uint64{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 363, 364, 365, 366, 367, 383, 384, 385, 386, 730, 731, 769, 1000, 5000}
	starts := []uint64{0, 1, 1000, 1 << 31}
	x.Product("decay by epochs", []core.Dim{setDim, core.DV("epochs", diffs), core.DV("first epoch", starts)}, func(v []int, c *core.C) {
		m := sets[v[0]]
		p := m.provider()
		c.Step(len(amounts))
		last := uint64(0)
		for _, a := range amounts {
			want := m.p.Decay(new(big.Int).SetUint64(a), diffs[v[1]])
			got, err := p.DecayManaByEpochs(iotago.Mana(a), iotago.EpochIndex(starts[v[2]]), iotago.EpochIndex(starts[v[2]]+diffs[v[1]]))
			if !c.Check(err == nil && uint64(got) == want.Uint64(), "decay", "decaying %d by %d epochs: got %d (%v), want %v", a, diffs[v[1]], got, err, want) {
				return
			}
			c.Check(uint64(got) <= a, "decay grows", "%d decays to %d", a, got)
			c.Check(uint64(got) >= last, "decay order", "decay is not monotone at %d", a)
			last = uint64(got)
		}
		if v[1] > 0 {
			got, err := p.DecayManaByEpochs(1000, iotago.EpochIndex(starts[v[2]]+diffs[v[1]]), iotago.EpochIndex(starts[v[2]]))
			c.Check(err != nil && got == 0, "decay backwards", "decaying backwards returns %d, %v", got, err)
		}
	})
	big1 := []uint64{1 << 16, 1<<20 - 1, 1 << 22, maxSlot}
	x.Product("decay by many epochs", []core.Dim{core.DL("parameters", "table of 365, 31 bits", "mainnet"), core.DV("epochs", big1[:core.Pick(x, 3, 4)]), core.DV("amount", []uint64{1, 1 << 32, 1 << 63, ^uint64(0)})}, func(v []int, c *core.C) {
		m := sets[[]int{3, 8}[v[0]]]
		a := []uint64{1, 1 << 32, 1 << 63, ^uint64(0)}[v[2]]
		d := big1[v[1]]
		want := m.p.Decay(new(big.Int).SetUint64(a), d)
		got, err := m.provider().DecayManaByEpochs(iotago.Mana(a), 0, iotago.EpochIndex(d))
		c.Check(err == nil && uint64(got) == want.Uint64(), "decay", "decaying %d by %d epochs: got %d (%v), want %v", a, d, got, err, want)
	})
	// slot pairs: all pairs in a window for small epochs, pairs of boundary slots for large ones
	slotsOf := func(m *manaSet) (l []uint32) {
		g, n := uint64(m.p.GenesisSlot), uint64(1)<<m.p.EpochExp
		if n <= 8 {
			for i := uint64(0); i < uint64(core.Pick(x, 37, 80)); i++ {
				l = append(l, uint32(i))
			}
			for _, e := range []uint64{363, 364, 365, 366, 730, 731} {
				l = append(l, uint32(g+e*n-1), uint32(g+e*n), uint32(g+e*n+3))
			}
			return
		}
		for _, e := range []uint64{0, 1, 2, 3, 4, 384, 385, 386, 387, 769, 770} {
			for _, o := range []uint64{0, 1, 2, n / 2, n - 2, n - 1} {
				if s := g + e*n + o; s <= maxSlot {
					l = append(l, uint32(s))
				}
			}
		}
		return
	}
	all := make([][]uint32, len(sets))
	width := 0
	for i, m := range sets {
		all[i] = slotsOf(m)
		width = max(width, len(all[i]))
	}
	x.Product("generation and decay by slots", []core.Dim{setDim, core.DV("from", seq(width)), core.DV("to", seq(width))}, func(v []int, c *core.C) {
		m := sets[v[0]]
		l := all[v[0]]
		if v[1] >= len(l) || v[2] >= len(l) {
			c.Skip()
			return
		}
		from, to := l[v[1]], l[v[2]]
		c.Note("slots %d to %d", from, to)
		p := m.provider()
		gd := uint64(m.p.GenesisSlot)
		known := false
		c.Step(2 * len(amounts))
		for _, a := range amounts {
			want, ok := m.p.DecaySlots(new(big.Int).SetUint64(a), from, to)
			got, err := p.DecayManaBySlots(iotago.Mana(a), iotago.SlotIndex(from), iotago.SlotIndex(to))
			if !c.Check((err == nil) == ok, "decay by slots order", "decaying %d from slot %d to %d: error %v, model says valid=%v", a, from, to, err, ok) {
				return
			}
			if ok && !c.Check(uint64(got) == want.Uint64(), "decay by slots", "decaying %d from slot %d to %d: got %d, want %v", a, from, to, got, want) {
				return
			}
			want, ok = m.p.Generated(a, from, to, m.p.Before, m.p.Since)
			got, err = p.GenerateManaAndDecayBySlots(iotago.BaseToken(a), iotago.SlotIndex(from), iotago.SlotIndex(to))
			if from > to {
				if !c.Check(err != nil, "generation order", "generating backwards from slot %d to %d returns %d", from, to, got) {
					return
				}
				continue
			}
			if err != nil && !m.fits(a, from, to) {
				c.Outcome("overflow reported")
				continue
			}
			if err == nil && ok && want.Cmp(max64) <= 0 && uint64(got) == want.Uint64() {
				c.Outcome("exact")
				continue
			}
			if err != nil && !ok {
				c.Outcome("negative reported")
				continue
			}
			if gd > 0 && m.p.Epoch(from) != m.p.Epoch(to) {
				// recorded finding: the distances to the epoch bounds count the genesis slot once more
				w2, ok2 := m.p.Generated(a, from, to, func(s uint32) uint64 {
					if uint64(s) < gd {
						return 0
					}
					return m.p.Before(s) + gd
				}, func(s uint32) uint64 { return m.p.Since(s) + gd })
				if err == nil && ok2 && w2.Cmp(max64) <= 0 && uint64(got) == w2.Uint64() || err != nil && (!ok2 || w2.Cmp(max64) > 0) {
					if !known {
						c.Fail("generation counts the genesis slot", "generating on %d from slot %d to %d: got %d (%v), want %v", a, from, to, got, err, want)
						c.Outcome("known deviation")
					}
					known = true
					continue
				}
			}
			c.Fail("generation", "generating on %d from slot %d to %d: got %d (%v), want %v (valid %v)", a, from, to, got, err, want, ok)
			return
		}
	})
	// potential mana of outputs: the amount above the minimum deposit generates
	e := gen.NewEnv(ref.Default())
	kinds := []string{"basic", "account", "anchor", "foundry", "nft", "delegation", "basic with token", "basic with storage return", "implicit account"}
	mkOut := func(k string, amt uint64) iotago.Output {
		switch k {
		case "account":
			return account(gen.AccID(1), gen.Ed(0), amt, 5, 0, fBI(40, 0, 1))
		case "anchor":
			return anchor(gen.AncID(1), gen.Ed(0), gen.Ed(1), amt, 5, 0)
		case "foundry":
			return foundry(gen.AccID(1), amt, 1, 0, 0, 9)
		case "nft":
			return nft(gen.NFTID(1), gen.Ed(0), amt, 5)
		case "delegation":
			return delegation(gen.DelID(1), gen.Ed(0), amt, amt, gen.AccAddr(2), 1, 0)
		case "basic with token":
			return basic(gen.Ed(0), amt, 5, fNT(foundryID(gen.AccID(1), 1), 4))
		case "basic with storage return":
			return basic(gen.Ed(0), amt, 5, ucSDR(gen.Ed(1), 3))
		case "implicit account":
			return basic(gen.Implicit(0), amt, 5)
		}
		return basic(gen.Ed(0), amt, 5)
	}
	rel := []int64{-1000, -1, 0, 1, 2, 100, 1_000_000}
	pslots := []uint32{0, 1, 7, 8, 9, 15, 16, 17, 23, 24, 40, 41, 100}
	x.Product("potential mana", []core.Dim{core.DL("output", kinds...), core.DV("amount over minimum", rel), core.DV("from", pslots), core.DV("to", pslots)}, func(v []int, c *core.C) {
		o := mkOut(kinds[v[0]], 1)
		min := e.P.MinDeposit(o)
		o = mkOut(kinds[v[0]], uint64(max(0, min.Int64()+rel[v[1]])))
		from, to := pslots[v[2]], pslots[v[3]]
		if rel[v[1]] < 0 && from > to {
			c.Skip()
			return
		}
		want, ok := e.P.Potential(o, from, to)
		got, err := iotago.PotentialMana(e.API.ManaDecayProvider(), e.API.StorageScoreStructure(), o, iotago.SlotIndex(from), iotago.SlotIndex(to))
		c.Check((err == nil) == ok, "potential order", "potential mana: error %v, model says valid=%v", err, ok)
		if ok && err == nil {
			c.Check(uint64(got) == want.Uint64(), "potential", "potential mana of %d from slot %d to %d is %d, want %v", ref.Amount(o), from, to, got, want)
		}
	})
	// target rewards of an epoch
	x.Product("target reward", []core.Dim{core.DV("bootstrapping", []uint32{0, 1, 5, 1000}), core.DV("epoch", []uint32{0, 1, 2, 3, 4, 5, 6, 7, 999, 1000, 1001, 5000}), core.DV("initial", []uint64{0, 1, 1 << 40, ^uint64(0)})}, func(v []int, c *core.C) {
		b, ep, in := []uint32{0, 1, 5, 1000}[v[0]], []uint32{0, 1, 2, 3, 4, 5, 6, 7, 999, 1000, 1001, 5000}[v[1]], []uint64{0, 1, 1 << 40, ^uint64(0)}[v[2]]
		p := ref.Default()
		pp := gen.ProtoParams(&p)
		r := pp.RewardsParameters()
		r.BootstrappingDuration, r.InitialTargetRewardsRate, r.FinalTargetRewardsRate = iotago.EpochIndex(b), iotago.Mana(in), 12345
		got, err := r.TargetReward(iotago.EpochIndex(ep), iotago.V3API(pp))
		want := uint64(12345)
		if ep <= b {
			want = p.Decay(new(big.Int).SetUint64(in), uint64(ep)).Uint64()
		}
		c.Check(err == nil && uint64(got) == want, "target reward", "target reward of epoch %d (bootstrapping %d) is %d (%v), want %d", ep, b, got, err, want)
	})
}
