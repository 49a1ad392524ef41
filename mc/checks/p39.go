package checks

import (
	"math"
	"math/big"
	"math/bits"
	"os"
	"time"

	"golang.org/x/crypto/blake2b"

	iotago "github.com/iotaledger/iota.go/v4"

	"verif.local/mc/core"
)

func init() { All["P39"] = p39 }

// snap are the inputs of the snapshot constructor.
type snap struct {
	lower, upper                                 uint16
	minCA, maxCA, near                           uint32
	genesis                                      uint32
	unix                                         int64
	dur, exp                                     uint8
	supply                                       uint64
	bits, rate, rateExp, decExp, sumExp, pct     uint8
	minRMC, incRMC, decRMC                       uint64
	incThr, decThr, sched                        uint32
	buf, valBuf                                  uint32
	unbond, punish                               uint32
	valBlocks                                    uint8
	window, target, offset                       uint8
	profit, pool, ratio                          uint8
	retention                                    uint16
	committee, chainSwitch, version              uint8
	name, hrp                                    string
	storageCost                                  uint64
	factor                                       uint8
	offOutput, offKey, offStaking, offDelegation uint64
	work                                         [10]uint32
	order                                        int
}

func snapBase() snap {
	return snap{
		lower: 15, upper: 30, minCA: 10, maxCA: 20, near: 60, genesis: 7, unix: 1600000000, dur: 10, exp: 13,
		supply: 1813620509061365, bits: 63, rate: 1, rateExp: 17, decExp: 32, sumExp: 21, pct: 70,
		minRMC: 2, incRMC: 3, decRMC: 5, incThr: 4000, decThr: 2500, sched: 500, buf: 1000, valBuf: 100,
		unbond: 11, punish: 12, valBlocks: 10, window: 7, target: 5, offset: 6, profit: 8, pool: 11, ratio: 2, retention: 384,
		committee: 32, chainSwitch: 3, version: 3, name: "a network", hrp: "xyz",
		storageCost: 100, factor: 1, offOutput: 101, offKey: 102, offStaking: 103, offDelegation: 104,
		work: [10]uint32{1, 2, 3, 4, 5, 6, 7, 8, 9, 10},
	}
}

func (o snap) build() (p *iotago.V3ProtocolParameters, refused string) {
	ws := func(i int) iotago.WorkScore { return iotago.WorkScore(o.work[i]) }
	opts := []func(*iotago.V3ProtocolParameters){
		iotago.WithVersion(iotago.Version(o.version)),
		iotago.WithNetworkOptions(o.name, iotago.NetworkPrefix(o.hrp)),
		iotago.WithStorageOptions(iotago.BaseToken(o.storageCost), iotago.StorageScoreFactor(o.factor), iotago.StorageScore(o.offOutput), iotago.StorageScore(o.offKey), iotago.StorageScore(o.offStaking), iotago.StorageScore(o.offDelegation)),
		iotago.WithWorkScoreOptions(ws(0), ws(1), ws(2), ws(3), ws(4), ws(5), ws(6), ws(7), ws(8), ws(9)),
		iotago.WithTimeProviderOptions(iotago.SlotIndex(o.genesis), o.unix, o.dur, o.exp),
		iotago.WithLivenessOptions(o.lower, o.upper, iotago.SlotIndex(o.minCA), iotago.SlotIndex(o.maxCA), iotago.SlotIndex(o.near)),
		iotago.WithSupplyOptions(iotago.BaseToken(o.supply), o.bits, o.rate, o.rateExp, o.decExp, o.sumExp, o.pct),
		iotago.WithCongestionControlOptions(iotago.Mana(o.minRMC), iotago.Mana(o.incRMC), iotago.Mana(o.decRMC), iotago.WorkScore(o.incThr), iotago.WorkScore(o.decThr), iotago.WorkScore(o.sched), o.buf, o.valBuf),
		iotago.WithStakingOptions(iotago.EpochIndex(o.unbond), o.valBlocks, iotago.EpochIndex(o.punish)),
		iotago.WithVersionSignalingOptions(o.window, o.target, o.offset),
		iotago.WithRewardsOptions(o.profit, o.pool, o.ratio, o.retention),
		iotago.WithTargetCommitteeSize(o.committee),
		iotago.WithChainSwitchingThreshold(o.chainSwitch),
	}
	n := len(opts)
	switch {
	case o.order == 1:
		for i := 0; i < n/2; i++ {
			opts[i], opts[n-1-i] = opts[n-1-i], opts[i]
		}
	case o.order > 1:
		opts = append(opts[o.order%n:], opts[:o.order%n]...)
	}
	refused = core.Panics(func() {
		p = withOptions(iotago.NewV3SnapshotProtocolParameters, opts)
	})
	return
}

func withOptions[O ~func(*iotago.V3ProtocolParameters)](f func(...O) *iotago.V3ProtocolParameters, opts []func(*iotago.V3ProtocolParameters)) *iotago.V3ProtocolParameters {
	var os []O
	for _, o := range opts {
		os = append(os, O(o))
	}
	return f(os...)
}

type snapWant struct {
	table             []float64
	sum               float64
	boot              float64
	initial           float64
	final             uint64
	accept, uncertain bool
	reason            string
}

// model decides which parameters are consistent and what is derived from them.
func (o snap) model() (w snapWant) {
	refuse := func(cond bool, why string) {
		if cond && w.reason == "" {
			w.reason = why
		}
	}
	// near reports that a floating point comparison with the limit may go either way.
	below := func(v, limit float64, why string) {
		if math.Abs(v/limit-1) < 1e-6 {
			w.uncertain = true
			return
		}
		refuse(!(v < limit), why)
	}
	defer func() { w.accept = w.reason == "" }()
	refuse(o.lower > o.upper, "liveness bounds")
	refuse(uint64(o.upper) >= uint64(o.minCA)*uint64(o.dur), "liveness window")
	refuse(o.minCA >= o.maxCA, "committable ages")
	refuse(o.maxCA >= o.near, "epoch nearing")
	refuse(o.exp >= 32 || uint64(o.near) >= 1<<o.exp, "epoch length")
	thr := uint64(o.dur) * uint64(o.sched)
	refuse(uint64(o.incThr) > thr, "increase threshold")
	refuse(o.decThr > o.incThr, "decrease threshold")
	refuse(bits.Len64(o.supply)+int(o.pool) > 64, "pool coefficient")
	refuse(o.valBlocks > 32, "validation blocks")
	refuse(o.dur == 0, "slot duration")
	refuse(o.pct >= 100, "no decay")
	prod := new(big.Int).SetUint64(o.supply)
	prod.Mul(prod, big.NewInt(int64(o.ratio)))
	if o.rate == 0 && !prod.IsUint64() {
		w.uncertain = true // no rewards at all: whether the first product counts is not specified
	}
	prod.Mul(prod, big.NewInt(int64(o.rate)))
	refuse(!prod.IsUint64() || o.rateExp < o.exp, "reward rate")
	if w.reason != "" {
		return
	}
	w.final = prod.Uint64() >> (o.rateExp - o.exp)
	const year = 365 * 24 * 60 * 60
	years := math.Ldexp(float64(o.dur), int(o.exp)) / year
	beta := math.Inf(1)
	if o.pct > 0 {
		beta = math.Log(100) - math.Log(float64(o.pct))
	}
	n := int(math.Min(65535, math.Floor(1/years)))
	for k := 1; k <= n; k++ {
		w.table = append(w.table, math.Ldexp(math.Exp(-beta*years*float64(k)), int(o.decExp)))
	}
	if n > 0 && o.decExp > 32 {
		below(w.table[0], 1<<32, "decay factor")
	}
	w.sum = math.Ldexp(1/math.Expm1(beta*years), int(o.sumExp))
	below(w.sum, 1<<32, "decay sum")
	below(w.sum*float64(o.rate), 1<<32, "decay sum times generation rate")
	supply := 21 * float64(o.supply) * float64(o.rate) * math.Ldexp(1, int(o.exp)-int(o.rateExp)) / (beta * years)
	below(supply, math.Ldexp(1, int(o.bits)), "mana supply")
	w.boot = 1 / years / beta
	w.initial = float64(w.final) * math.Exp(beta*years*math.Floor(w.boot))
	if o.pct == 0 {
		w.initial = float64(w.final)
	}
	below(w.initial, math.Ldexp(1, 64), "initial rewards")
	return
}

func (o snap) check(c *core.C) {
	w := o.model()
	p, refused := o.build()
	c.Step(1)
	if w.uncertain && w.accept {
		c.Outcome("at a floating point limit")
		if refused != "" {
			return
		}
	} else {
		if w.accept {
			c.Outcome("accepted")
		} else {
			c.Outcome("refused: " + w.reason)
		}
		if !c.Check((refused == "") == w.accept, "accept "+w.reason, "%+v: refused %q, expected refusal %q", o, refused, w.reason) || refused != "" {
			return
		}
	}
	c.Validated()
	eq := func(what string, ok bool) { c.Check(ok, "field "+what, "%s of %+v is not what was asked for", what, o) }
	eq("version", p.Version() == iotago.Version(o.version))
	eq("network name", p.NetworkName() == o.name)
	h := blake2b.Sum256([]byte(o.name))
	var id uint64
	for i := 7; i >= 0; i-- {
		id = id<<8 | uint64(h[i])
	}
	eq("network ID", uint64(p.NetworkID()) == id)
	eq("hrp", string(p.Bech32HRP()) == o.hrp)
	eq("storage score", *p.StorageScoreParameters() == iotago.StorageScoreParameters{StorageCost: iotago.BaseToken(o.storageCost), FactorData: iotago.StorageScoreFactor(o.factor), OffsetOutputOverhead: iotago.StorageScore(o.offOutput), OffsetEd25519BlockIssuerKey: iotago.StorageScore(o.offKey), OffsetStakingFeature: iotago.StorageScore(o.offStaking), OffsetDelegation: iotago.StorageScore(o.offDelegation)})
	wk := p.WorkScoreParameters()
	for i, s := range []iotago.WorkScore{wk.DataByte, wk.Block, wk.Input, wk.ContextInput, wk.Output, wk.NativeToken, wk.Staking, wk.BlockIssuer, wk.Allotment, wk.SignatureEd25519} {
		eq("work score", uint32(s) == o.work[i])
	}
	eq("genesis slot", uint32(p.GenesisSlot()) == o.genesis)
	eq("genesis block", p.GenesisBlockID() == iotago.NewBlockID(iotago.SlotIndex(o.genesis), iotago.Identifier{}))
	eq("genesis time", p.GenesisUnixTimestamp() == o.unix)
	eq("slot duration", p.SlotDurationInSeconds() == o.dur)
	eq("epoch exponent", p.SlotsPerEpochExponent() == o.exp)
	eq("epoch duration", uint64(p.ParamEpochDurationInSlots()) == 1<<o.exp)
	eq("liveness lower bound", p.LivenessThresholdLowerBound() == time.Duration(o.lower)*time.Second)
	eq("liveness upper bound", p.LivenessThresholdUpperBound() == time.Duration(o.upper)*time.Second)
	eq("min committable age", uint32(p.MinCommittableAge()) == o.minCA)
	eq("max committable age", uint32(p.MaxCommittableAge()) == o.maxCA)
	eq("epoch nearing threshold", uint32(p.EpochNearingThreshold()) == o.near)
	eq("token supply", uint64(p.TokenSupply()) == o.supply)
	eq("congestion control", *p.CongestionControlParameters() == iotago.CongestionControlParameters{MinReferenceManaCost: iotago.Mana(o.minRMC), Increase: iotago.Mana(o.incRMC), Decrease: iotago.Mana(o.decRMC), IncreaseThreshold: iotago.WorkScore(o.incThr), DecreaseThreshold: iotago.WorkScore(o.decThr), SchedulerRate: iotago.WorkScore(o.sched), MaxBufferSize: o.buf, MaxValidationBufferSize: o.valBuf})
	eq("unbonding period", uint32(p.StakingUnbondingPeriod()) == o.unbond)
	eq("validation blocks", p.ValidationBlocksPerSlot() == o.valBlocks)
	eq("punishment epochs", uint32(p.PunishmentEpochs()) == o.punish)
	eq("version signaling", *p.VersionSignalingParameters() == iotago.VersionSignalingParameters{WindowSize: o.window, WindowTargetRatio: o.target, ActivationOffset: o.offset})
	eq("committee size", p.TargetCommitteeSize() == o.committee)
	eq("chain switching", p.ChainSwitchingThreshold() == o.chainSwitch)
	m := p.ManaParameters()
	eq("mana parameters", m.BitsCount == o.bits && m.GenerationRate == o.rate && m.GenerationRateExponent == o.rateExp && m.DecayFactorsExponent == o.decExp && m.DecayFactorEpochsSumExponent == o.sumExp && m.AnnualDecayFactorPercentage == o.pct)
	r := p.RewardsParameters()
	eq("rewards parameters", r.ProfitMarginExponent == o.profit && r.PoolCoefficientExponent == o.pool && r.RewardToGenerationRatio == o.ratio && r.RetentionPeriod == o.retention)
	// derived values: truncated, computed with floating point numbers
	trunc := func(what string, got uint64, want, rel float64) bool {
		return c.Check(float64(got) <= want+1e-3+want*rel && float64(got) >= want-1.001-want*rel, "derived "+what, "%s of %+v is %d, want %f", what, o, got, want)
	}
	if c.Check(len(m.DecayFactors) == len(w.table), "derived table", "%d decay factors for %+v, want %d", len(m.DecayFactors), o, len(w.table)) {
		for i, f := range m.DecayFactors {
			if !trunc("decay factor", uint64(f), w.table[i], 1e-10) {
				break
			}
		}
	}
	trunc("decay sum", uint64(m.DecayFactorEpochsSum), w.sum, 1e-6)
	eq("decay sum times generation rate", uint64(m.DecayFactorEpochsSum)*uint64(o.rate) <= math.MaxUint32)
	trunc("bootstrapping duration", uint64(r.BootstrappingDuration), w.boot, 1e-10)
	eq("final rewards rate", uint64(r.FinalTargetRewardsRate) == w.final)
	trunc("initial rewards rate", uint64(r.InitialTargetRewardsRate), w.initial, 1e-6)
	b, err := p.Bytes()
	if !c.Check(err == nil, "encode", "%+v: %v", o, err) {
		return
	}
	q, n, err := iotago.ProtocolParametersFromBytes(b)
	if c.Check(err == nil && n == len(b), "decode", "%+v: %v", o, err) {
		b2, err := q.Bytes()
		c.Check(err == nil && string(b2) == string(b) && p.Equals(q) && q.Equals(p), "round trip", "%+v comes back different", o)
	}
	c.Step(2)
}

func p39(x *core.Ctx) {
	stdout := os.Stdout
	os.Stdout, _ = os.Open(os.DevNull) // the constructor prints what it refuses
	defer func() { os.Stdout = stdout }()
	th := x.Thorough()
	pick := func(q, t []uint64) []uint64 {
		if th {
			return append(append([]uint64{}, q...), t...)
		}
		return q
	}

	// every option alone, and the order of the options
	x.Product("options", []core.Dim{core.D("order", 13), core.D("field", 46), core.D("value", 3)}, func(v []int, c *core.C) {
		o := snapBase()
		o.order = v[0]
		d := uint64(v[2])
		fields := []func(){
			func() { o.lower += uint16(d) }, func() { o.upper += uint16(d) }, func() { o.minCA += uint32(d) }, func() { o.maxCA += uint32(d) }, func() { o.near += uint32(d) },
			func() { o.genesis += uint32(d) }, func() { o.unix += int64(d) }, func() { o.dur += uint8(d) }, func() { o.exp += uint8(d) }, func() { o.supply += d },
			func() { o.bits += uint8(d) }, func() { o.rate += uint8(d) }, func() { o.rateExp += uint8(d) }, func() { o.decExp -= uint8(d) }, func() { o.sumExp -= uint8(d) }, func() { o.pct -= uint8(d) },
			func() { o.minRMC += d }, func() { o.incRMC += d }, func() { o.decRMC += d }, func() { o.incThr += uint32(d) }, func() { o.decThr += uint32(d) }, func() { o.sched += uint32(d) }, func() { o.buf += uint32(d) }, func() { o.valBuf += uint32(d) },
			func() { o.unbond += uint32(d) }, func() { o.punish += uint32(d) }, func() { o.valBlocks += uint8(d) }, func() { o.window += uint8(d) }, func() { o.target += uint8(d) }, func() { o.offset += uint8(d) },
			func() { o.profit += uint8(d) }, func() { o.pool += uint8(d) }, func() { o.ratio += uint8(d) }, func() { o.retention += uint16(d) }, func() { o.committee += uint8(d) }, func() { o.chainSwitch += uint8(d) },
			func() { o.version += uint8(d) }, func() { o.name += string(rune('a' + d)) }, func() { o.hrp = []string{"xyz", "tst", "rms"}[d] }, func() { o.storageCost += d }, func() { o.factor += uint8(d) },
			func() { o.offOutput += d }, func() { o.offKey += d }, func() { o.offStaking += d }, func() { o.offDelegation += d },
			func() { o.work[(v[0]+int(d))%10] += 77 },
		}
		fields[v[1]]()
		o.check(c)
	})

	bounds := pick([]uint64{0, 1, 15, 99, 100, 65535}, []uint64{9, 10, 11, 254, 255, 256})
	ages := pick([]uint64{0, 1, 2, 10, 31, 32, 1 << 16, math.MaxUint32}, []uint64{3, 9, 11, 33, 1<<31 - 1, 1 << 31})
	durs := pick([]uint64{1, 10}, []uint64{0, 2, 255})
	exps := pick([]uint64{0, 5, 13, 31, 32}, []uint64{1, 2, 14, 33, 64, 255})
	x.Product("liveness window", []core.Dim{core.DV("lower", bounds), core.DV("upper", bounds), core.DV("age", ages), core.DV("duration", append([]uint64{0, 255}, durs...))}, func(v []int, c *core.C) {
		o := snapBase()
		o.supply, o.rateExp, o.sumExp = 1000, 40, 1
		o.lower, o.upper, o.minCA, o.dur = uint16(bounds[v[0]]), uint16(bounds[v[1]]), uint32(ages[v[2]]), uint8(append([]uint64{0, 255}, durs...)[v[3]])
		o.maxCA, o.near = o.minCA+1, o.minCA+2
		o.incThr, o.decThr = 0, 0
		o.check(c)
	})
	x.Product("committable ages", []core.Dim{core.DV("min", ages), core.DV("max", ages), core.DV("nearing", ages), core.DV("exponent", exps), core.DV("duration", durs)}, func(v []int, c *core.C) {
		o := snapBase()
		o.supply, o.rateExp, o.sumExp = 1000, 40, 1
		o.lower, o.upper = 0, 0
		o.minCA, o.maxCA, o.near, o.exp, o.dur = uint32(ages[v[0]]), uint32(ages[v[1]]), uint32(ages[v[2]]), uint8(exps[v[3]]), uint8(durs[v[4]])
		o.incThr, o.decThr = 0, 0
		o.check(c)
	})
	thr := pick([]uint64{0, 1, 9, 10, 11, 2550, math.MaxUint32 - 1, math.MaxUint32}, []uint64{255, 256, 1 << 31})
	rates := pick([]uint64{0, 1, 429496729, 429496730, math.MaxUint32}, []uint64{10, 11, 1 << 24})
	x.Product("congestion thresholds", []core.Dim{core.DV("increase", thr), core.DV("decrease", thr), core.DV("rate", rates), core.DV("duration", []uint64{1, 10, 255})}, func(v []int, c *core.C) {
		o := snapBase()
		o.supply, o.rateExp, o.sumExp = 1000, 40, 1
		o.incThr, o.decThr, o.sched, o.dur = uint32(thr[v[0]]), uint32(thr[v[1]]), uint32(rates[v[2]]), []uint8{1, 10, 255}[v[3]]
		o.upper, o.lower = 9, 9
		o.check(c)
	})
	// pool coefficients and validation blocks
	x.Product("staking", []core.Dim{core.D("supply bits", 65), core.D("supply", 3), core.DL("pool", "exact", "one more", "one less", "0", "64", "65", "255"), core.DL("validation blocks", "0", "32", "33", "255")}, func(v []int, c *core.C) {
		o := snapBase()
		o.rateExp, o.bits, o.rate, o.ratio = 60, 200, 1, 0
		switch v[1] {
		case 0:
			o.supply = 1<<v[0] - 1
		case 1:
			o.supply = 1 << v[0] >> 1
		case 2:
			o.supply = 1<<v[0] - 1 - 1<<v[0]>>20
		}
		if v[0] == 64 && v[1] == 0 {
			o.supply = math.MaxUint64
		}
		n := 64 - bits.Len64(o.supply)
		o.pool = []uint8{uint8(n), uint8(n + 1), uint8(n - 1), 0, 64, 65, 255}[v[2]]
		o.valBlocks = []uint8{0, 32, 33, 255}[v[3]]
		o.check(c)
	})
	pcts := pick([]uint64{0, 1, 50, 70, 99, 100, 101, 255}, []uint64{2, 33, 98, 128})
	decs := pick([]uint64{0, 1, 31, 32, 33, 64}, []uint64{16, 34, 128, 255})
	sums := pick([]uint64{0, 1, 20, 21, 31, 255}, []uint64{10, 22, 24, 32})
	eps := pick([]uint64{8, 13, 20}, []uint64{0, 7, 18, 21, 22, 23, 31})
	x.Product("decay tables", []core.Dim{core.DV("percentage", pcts), core.DV("factor exponent", decs), core.DV("sum exponent", sums), core.DV("epoch exponent", eps), core.DV("duration", []uint64{1, 10, 255}), core.DV("generation rate", []uint64{0, 1, 255})}, func(v []int, c *core.C) {
		o := snapBase()
		o.supply, o.rateExp = 1000, 40
		o.pct, o.decExp, o.sumExp, o.exp, o.dur, o.rate = uint8(pcts[v[0]]), uint8(decs[v[1]]), uint8(sums[v[2]]), uint8(eps[v[3]]), []uint8{1, 10, 255}[v[4]], []uint8{0, 1, 255}[v[5]]
		o.incThr, o.decThr, o.lower, o.upper = 0, 0, 1, 1
		o.check(c)
	})
	supplies := []uint64{0, 1, 1000, 1813620509061365, 1 << 53, 1<<62 + 5, 1 << 63, math.MaxUint64/255 + 1, math.MaxUint64 / 255, math.MaxUint64}
	grs := []uint64{0, 1, 3, 255}
	gxs := pick([]uint64{0, 12, 13, 17, 40, 76, 255}, []uint64{14, 20, 30, 64, 77})
	bcs := pick([]uint64{0, 32, 63, 64, 255}, []uint64{1, 31, 48, 62, 65, 128})
	x.Product("mana supply and rewards", []core.Dim{core.DV("supply", supplies), core.DV("ratio", grs), core.DV("generation rate", grs), core.DV("generation exponent", gxs), core.DV("bits", bcs), core.DV("epoch exponent", []uint64{13, 20}), core.DV("percentage", []uint64{1, 70, 99})}, func(v []int, c *core.C) {
		o := snapBase()
		o.pool, o.sumExp = 0, 1
		o.supply, o.ratio, o.rate, o.rateExp, o.bits, o.exp, o.pct = supplies[v[0]], uint8(grs[v[1]]), uint8(grs[v[2]]), uint8(gxs[v[3]]), uint8(bcs[v[4]]), []uint8{13, 20}[v[5]], []uint8{1, 70, 99}[v[6]]
		o.check(c)
	})
	x.Assume("protocol parameters are made with the options of the snapshot constructor; values that are computed with floating point numbers are compared within 1e-6, and parameters within 1e-6 of a floating point limit may go either way")
}
