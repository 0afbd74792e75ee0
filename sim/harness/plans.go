package main

import (
	"sort"
	"strings"
)

func plan(prop, scen string, weight int) { plans[prop] = append(plans[prop], share{scen, weight}) }

func init() {
	for _, p := range []string{"C01", "C02", "C03", "C04", "C09", "C10", "C14", "C15", "C16", "C17", "C18", "C22", "C23"} {
		plan(p, "swarm:"+p, 10)
	}
	for _, p := range []string{"C05", "C06", "C19", "C20"} {
		plan(p, "startup:"+p, 10)
	}
	// what of the components shows in the whole client
	plan("C07", "swarm:C07", 1)
	scenarios["swarm:C07"] = func(r *Run) {
		r.also = map[string]string{"C01": "C07"}
		r.swarm("C01")
	}
	plan("C08", "startup:C08", 1)
	scenarios["startup:C08"] = func(r *Run) {
		r.also = map[string]string{"C05": "C08", "C06": "C08"}
		r.startupDisk("C06")
	}
	plan("C13", "swarm:C13", 1)
	scenarios["swarm:C13"] = func(r *Run) {
		r.also = map[string]string{"C02": "C13"}
		r.swarm("C02")
	}
}

// what the scenarios of one kind run unmodified (translated from /repo/src)
var kinds = map[string]string{
	"swarm":      "the whole client, started through its main: option parsing, torrent parsing, bencoding, file I/O, swarm, peer handlers, piece tracker, connection reader, rate limiter, message codecs, tracker client",
	"track":      "the whole client, started through its main",
	"startup":    "the whole client, started through its main",
	"fileio":     "piece storage (torrent/fileio, torrent/filesd, torrent/info, utils) through its exported API",
	"crashstore": "piece storage and the client's startup (whole client on restart)",
	"ratelimit":  "the rate limiter (io) through its exported API",
	"ppt":        "the piece tracker (swarm, utils/ds, bf) through its exported API",
	"readloop":   "the connection reader (io) through its exported API",
	"create":     "metadata creation (torrent/info, utils) and reading back through piece storage",
}

func realParts(prop string) []string {
	m := map[string]bool{}
	for _, s := range plans[prop] {
		k := s.scen
		if i := strings.IndexByte(k, ':'); i >= 0 {
			k = k[:i]
		}
		m[k+" scenarios: "+kinds[k]] = true
	}
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func stubParts(prop string) []string {
	return []string{"Go scheduler, channels, mutexes, atomics, timers, clock (simulated)", "TCP stack (simulated byte streams)", "disk and file system (simulated)", "HTTP transport and tracker (in-process handler)", "remote peers (scripted)", "command line, log output, random source (simulated)"}
}
