package main

var demuxNames = []string{"flv", "ps", "ts", "jt1078"}

// demuxBase is a scenario's default emphasis.
func demuxBase(c *C) demuxOpt {
	return demuxOpt{
		name:      demuxNames[c.idx%4],
		steps:     c.Range(20, 90),
		maxData:   pick(c.Rng, []int{8, 60, 400, 1500}),
		autoFree:  c.Bool(),
		backwards: c.N(4) == 0,
		probe:     pick(c.Rng, []int{-5, 0, 1, 100, 199, 200, 201, 250, 400, 700, 1500, 6000}),
		bad:       c.N(8),
		tentative: c.N(6),
		forced:    c.N(5),
		reenter:   c.N(3) == 0,
		pcm:       c.N(5) == 0,
		boundary:  c.N(3) == 0,
		real:      c.N(3) == 0,
	}
}

func demuxProp(id, rule string, need []string, quick, thorough int, tune func(c *C, o *demuxOpt)) *Prop {
	return &Prop{ID: id, Rule: rule, Need: need, Families: []*Family{
		{Name: "model", Quick: quick, Thorough: thorough, RaceQ: quick / 40, RaceT: thorough / 200, Run: func(c *C) {
			o := demuxBase(c)
			tune(c, &o)
			newDemuxRun(c, o).run()
		}},
		{Name: "long-probe", Quick: 24, Thorough: 600, Run: func(c *C) {
			// probing that goes on for long: hundreds of parked packets
			o := demuxBase(c)
			tune(c, &o)
			o.steps = c.Range(500, 3000)
			o.probe = pick(c.Rng, []int{1500, 3000, 4500, 8000, 12000, 1 << 29})
			o.maxData = 8
			o.bad = c.N(2)
			o.tentative, o.forced = 0, 0
			o.patient = true
			newDemuxRun(c, o).run()
		}},
	}}
}

func init() {
	register(demuxProp("C01", "randomised input and completion-request histories on demuxers of all four containers; a handler records the callback trace, an online trace checker compares it with the reference automaton after every call, also for requests made from inside callbacks; distinct = distinct (callback trace, track count) states",
		[]string{"not_found", "completed", "announced", "delivered", "late_request", "forced_completion", "tentative_completion", "probe_by_duration", "request_from_callback", "rejected"}, 30000, 800000,
		func(c *C, o *demuxOpt) {
			o.forced = c.N(12)
			o.tentative = c.N(10)
			o.reenter = c.Bool()
			if c.N(10) == 0 {
				o.steps = c.N(4) // hardly any input
			}
		}))
	register(demuxProp("C02", "randomised multi-track packet histories (equal and decreasing decode times, rejected input between, all containers); every delivered packet is matched against an executable reference model: identity, order, payload, metadata, duration, preprocessing; distinct = distinct (callback trace, track count) states",
		[]string{"delivered", "parked_released", "preprocessed", "rejected", "completed"}, 30000, 800000,
		func(c *C, o *demuxOpt) {
			o.backwards = c.N(3) == 0
			o.steps = c.Range(30, 160)
			o.maxData = 60
		}))
	register(demuxProp("C03", "interleaved chunked writes of several streams through the real stream buffers (wrap-around, growth, rejected blocks), consumers that release late; payloads compared with private copies after every call, blocks counted per slot; distinct = distinct (callback trace, track count) states",
		[]string{"delivered", "released_by_consumer", "rejected", "header", "completed"}, 6000, 200000,
		func(c *C, o *demuxOpt) {
			o.real = c.N(8) != 0
			o.autoFree = c.N(3) == 0
			o.steps = c.Range(60, 400)
			o.maxData = pick(c.Rng, []int{60, 1500, 6000, 40000})
			o.noDistinct = c.Bool()
		}))
	register(demuxProp("C04", "parked durations around the probe threshold, forced and tentative requests at every point, raw-audio tracks with and without packets; the end of probing is compared with exact rational spans; distinct = distinct (callback trace, track count) states",
		[]string{"probing_goes_on", "probe_by_duration", "tentative_ignored", "tentative_completion", "forced_completion", "completed"}, 30000, 800000,
		func(c *C, o *demuxOpt) {
			o.boundary = c.N(3) != 0
			o.pcm = c.N(2) == 0
			o.forced = c.N(3)
			o.tentative = c.N(12)
			o.maxData = 20
		}))
	register(demuxProp("C05", "streams with generated configuration (SPS, records, AudioSpecificConfig, ADTS, raw audio rates), repeated, changed and broken headers, several tracks per container; announced tracks compared with the generator's ground truth after the input memory was overwritten; distinct = distinct (callback trace, track count) states",
		[]string{"announced", "video_track_checked", "aac_track_checked", "pcm_rate_checked", "g726_rate_checked", "header", "rejected"}, 30000, 800000,
		func(c *C, o *demuxOpt) {
			o.pcm = c.N(3) == 0
			o.bad = c.N(10)
			o.maxData = 20
			o.steps = c.Range(20, 60)
			o.probe = pick(c.Rng, []int{0, 200, 300, 800})
		}))
}
