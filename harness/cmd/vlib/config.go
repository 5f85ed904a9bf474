package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"

	"verif/harness/rec"

	"github.com/charlesetsmith/saratoga/sarflags"
)

func init() { drivers["config"] = driveConfig }

type cfgRun struct {
	r    *rec.Rec
	base []byte
	objs map[string]*sarflags.Cliflags
	bad  map[string]bool // a load failed: says nothing
}

func (c *cfgRun) fresh() map[string]interface{} {
	var m map[string]interface{}
	if err := json.Unmarshal(c.base, &m); err != nil {
		rec.Fatal(err)
	}
	return m
}

func settings(s *sarflags.Cliflags) rec.M {
	g := rec.M{}
	for k, v := range s.Global {
		g[k] = v
	}
	t := s.Timeout
	return rec.M{"global": g, "v4multicast": s.V4Multicast, "v6multicast": s.V6Multicast, "udpport": s.Port, "timestamp": s.Timestamp,
		"timezone": s.Timezone, "prompt": s.Prompt, "ppad": s.Ppad, "buffersize": s.Buffersize, "bcount": s.Bcount, "sardir": s.Sardir,
		"timeout": rec.M{"metadata": t.Metadata, "request": t.Request, "status": t.Status, "transfer": t.Transfer,
			"binterval": t.Binterval, "datacounter": t.Datacounter}}
}

func tables() rec.M {
	cmds, ff, fl, df := rec.M{}, rec.M{}, rec.M{}, rec.M{}
	for k, v := range sarflags.Commands {
		cmds[k] = rec.M{"usage": v.Usage, "help": v.Help}
	}
	for k, v := range sarflags.Frameflags {
		ff[k] = v
	}
	for k, v := range sarflags.Flags {
		fl[k] = rec.M{"frametypes": v.Frametypes, "len": v.Len, "msb": v.Msb, "options": v.Options}
	}
	for k, v := range sarflags.DirentFlags {
		df[k] = rec.M{"len": v.Len, "msb": v.Msb, "options": v.Options}
	}
	return rec.M{"commands": cmds, "frameflags": ff, "flags": fl, "direntflags": df,
		"timestamps": rec.M{"len": sarflags.TimeStamps.Len, "msb": sarflags.TimeStamps.Msb, "options": sarflags.TimeStamps.Options}}
}

func (c *cfgRun) all() rec.M {
	m := rec.M{}
	for k, o := range c.objs {
		if !c.bad[k] {
			m[k] = settings(o)
		}
	}
	return m
}

func (c *cfgRun) begin() {
	c.objs = map[string]*sarflags.Cliflags{}
	c.bad = map[string]bool{}
	c.r.Reset(nil)
}

// load the configuration text (or no file) into object o
func (c *cfgRun) load(o, kind string, cfg map[string]interface{}, text []byte, env string) bool {
	if c.objs[o] == nil {
		c.objs[o] = new(sarflags.Cliflags)
	}
	p := filepath.Join(*dir, "conf.json")
	os.Remove(p)
	os.Setenv("SARDIR", env)
	if kind != "missing" {
		if err := os.WriteFile(p, text, 0644); err != nil {
			rec.Fatal(err)
		}
	}
	m := rec.M{"e": "load", "o": o, "file": kind, "env": env, "res": "ok"}
	if kind == "good" {
		m["cfg"] = cfg
	}
	c.r.CallQ(m, func() {
		m["res"] = rec.Err(c.objs[o].ReadConfig(p))
	})
	if m["res"] == "ok" {
		m["tables"] = tables()
		delete(c.bad, o)
	} else {
		c.bad[o] = true
	}
	m["all"] = c.all()
	c.r.Ev(m)
	return m["res"] == "ok"
}

func (c *cfgRun) loadCfg(o string, cfg map[string]interface{}, env string) bool {
	b, err := json.MarshalIndent(cfg, "", "\t")
	if err != nil {
		rec.Fatal(err)
	}
	return c.load(o, "good", cfg, b, env)
}

func (c *cfgRun) event(m rec.M, f func() error) {
	m["res"] = "ok"
	c.r.CallQ(m, func() { m["res"] = rec.Err(f()) })
	m["all"] = c.all()
	c.r.Ev(m)
}

func (c *cfgRun) copy(from, to string) {
	if c.objs[from] == nil || c.bad[from] {
		return
	}
	c.event(rec.M{"e": "copy", "o": from, "to": to}, func() error {
		n, err := c.objs[from].CopyCliflags()
		if err == nil {
			c.objs[to] = n
			delete(c.bad, to)
		}
		return err
	})
}

var cfgFlags = []string{"csumtype", "freespace", "txwilling", "rxwilling", "stream", "reqtstamp", "reqstatus", "udplite", "descriptor"}
var cfgFields = []string{"v4multicast", "v6multicast", "udpport", "timestamp", "timezone", "prompt", "ppad", "buffersize", "bcount", "sardir"}
var cfgTimes = []string{"metadata", "request", "status", "transfer", "binterval", "datacounter"}

func (c *cfgRun) flag(o, f, v string) {
	if c.objs[o] == nil || c.bad[o] {
		return
	}
	c.event(rec.M{"e": "flag", "o": o, "f": f, "v": v}, func() error { c.objs[o].Global[f] = v; return nil })
}

func (c *cfgRun) field(o, f string) {
	if c.objs[o] == nil || c.bad[o] {
		return
	}
	n := c.r.Rand.Intn(1 << 30)
	s := fmt.Sprint("v", n)
	var v interface{} = s
	k := c.objs[o]
	switch f {
	case "udpport", "ppad", "buffersize", "bcount":
		v = n
	}
	c.event(rec.M{"e": "field", "o": o, "f": f, "v": v}, func() error {
		switch f {
		case "v4multicast":
			k.V4Multicast = s
		case "v6multicast":
			k.V6Multicast = s
		case "udpport":
			k.Port = n
		case "timestamp":
			k.Timestamp = s
		case "timezone":
			k.Timezone = s
		case "prompt":
			k.Prompt = s
		case "ppad":
			k.Ppad = n
		case "buffersize":
			k.Buffersize = n
		case "bcount":
			k.Bcount = uint(n)
		case "sardir":
			k.Sardir = s
		}
		return nil
	})
}

func (c *cfgRun) timeout(o, f string) {
	if c.objs[o] == nil || c.bad[o] {
		return
	}
	n := c.r.Rand.Intn(1 << 30)
	k := &c.objs[o].Timeout
	c.event(rec.M{"e": "timeout", "o": o, "f": f, "v": n}, func() error {
		switch f {
		case "metadata":
			k.Metadata = n
		case "request":
			k.Request = n
		case "status":
			k.Status = n
		case "transfer":
			k.Transfer = n
		case "binterval":
			k.Binterval = uint(n)
		case "datacounter":
			k.Datacounter = n
		}
		return nil
	})
}

// vary changes a configuration in k places
func (c *cfgRun) vary(m map[string]interface{}, k int) {
	r := c.r.Rand
	flags := m["flags"].(map[string]interface{})
	word := func() string {
		return []string{"x", "", "a b", "\u00e9\u4e16", "0", "%s", "yes", "long word, with = and \" in it"}[r.Intn(8)]
	}
	keys := func(x map[string]interface{}) string {
		var l []string
		for q := range x {
			l = append(l, q)
		}
		sort.Strings(l)
		return l[r.Intn(len(l))]
	}
	for ; k > 0; k-- {
		switch r.Intn(11) {
		case 0, 1:
			f := cfgFlags[r.Intn(len(cfgFlags))]
			m[f] = keys(flags[f].(map[string]interface{})["options"].(map[string]interface{}))
		case 2:
			if r.Intn(3) == 0 {
				m[cfgFlags[r.Intn(len(cfgFlags))]] = word()
			}
		case 3:
			m[[]string{"v4multicast", "v6multicast", "timestamp", "timezone", "prompt"}[r.Intn(5)]] = word()
		case 4:
			m["sardir"] = word() + "d"
		case 5:
			m[[]string{"udpport", "ppad", "buffersize", "bcount"}[r.Intn(4)]] = []int{0, 1, 2, 65535, 65536, 1 << 20, 1<<31 - 1}[r.Intn(7)]
		case 6:
			m["timeout"].(map[string]interface{})[cfgTimes[r.Intn(6)]] = []int{0, 1, 59, 100000, 1<<31 - 1}[r.Intn(5)]
		case 7:
			m["commands"].(map[string]interface{})[fmt.Sprint("cmd", r.Intn(5))] = rec.M{"usage": word(), "help": word()}
		case 8:
			f := flags[keys(flags)].(map[string]interface{})
			f["options"].(map[string]interface{})[fmt.Sprint("opt", r.Intn(5))] = r.Intn(16)
			if r.Intn(3) == 0 {
				f["msb"], f["len"] = r.Intn(24), 1+r.Intn(8)
			}
		case 10: // something is not there at all
			tab := []string{"commands", "flags", "direntflags", "frameflags", "timestamps"}[r.Intn(5)]
			t := m[tab].(map[string]interface{})
			if tab == "timestamps" {
				t = t["options"].(map[string]interface{})
			}
			if q := keys(t); len(t) > 2 && !(tab == "flags" && m[q] != nil) {
				delete(t, q)
			}
		case 9:
			d := m["direntflags"].(map[string]interface{})
			f := d[keys(d)].(map[string]interface{})
			f["options"].(map[string]interface{})[fmt.Sprint("opt", r.Intn(5))] = r.Intn(4)
			t := m["timestamps"].(map[string]interface{})
			t["options"].(map[string]interface{})[fmt.Sprint("opt", r.Intn(5))] = r.Intn(200)
			ff := m["frameflags"].(map[string]interface{})
			q := keys(ff)
			ff[q] = append(ff[q].([]interface{}), word()+"f")
		}
	}
}

func driveConfig(r *rec.Rec) {
	var err error
	c := &cfgRun{r: r}
	if c.base, err = os.ReadFile(*conf); err != nil {
		rec.Fatal(err)
	}
	if err = os.Chdir(*dir); err != nil {
		rec.Fatal(err)
	}
	null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	os.Stdout = null
	n := 0
	scenarios(func(line string) {
		var s [][]string
		if err := json.Unmarshal([]byte(line), &s); err != nil {
			rec.Fatal(err)
		}
		c.begin()
		c.loadCfg("o0", c.fresh(), "")
		for _, x := range s {
			n++
			switch x[0] {
			case "copy":
				c.copy(x[1], x[2])
			case "flag":
				c.flag(x[1], cfgFlags[n%len(cfgFlags)], x[2])
			case "field":
				c.field(x[1], cfgFields[n%len(cfgFields)])
			case "timeout":
				c.timeout(x[1], cfgTimes[n%len(cfgTimes)])
			}
		}
	})
	// a different value in every place, one at a time and all together
	c.begin()
	for _, f := range cfgFlags {
		m := c.fresh()
		for o := range m["flags"].(map[string]interface{})[f].(map[string]interface{})["options"].(map[string]interface{}) {
			m := c.fresh()
			m[f] = o
			c.loadCfg("o0", m, "")
		}
		m[f] = "nosuchoption"
		c.loadCfg("o1", m, "")
	}
	all := c.fresh()
	for i, f := range cfgFields {
		m := c.fresh()
		var v interface{} = fmt.Sprint("val", i)
		switch f {
		case "udpport", "ppad", "buffersize", "bcount":
			v = 1000 + i
		}
		m[f], all[f] = v, v
		c.loadCfg("o0", m, "")
		c.copy("o0", "o2")
	}
	for i, f := range cfgTimes {
		m := c.fresh()
		m["timeout"].(map[string]interface{})[f] = 2000 + i
		all["timeout"].(map[string]interface{})[f] = 2000 + i
		c.loadCfg("o0", m, "/somewhere")
		c.copy("o0", "o2")
	}
	c.loadCfg("o3", all, "")
	c.copy("o3", "o2")
	// damaged files
	c.begin()
	c.loadCfg("o0", c.fresh(), "")
	c.load("o1", "missing", nil, nil, "")
	c.load("o1", "malformed", nil, nil, "")
	c.load("o1", "malformed", nil, []byte("[1, 2]"), "")
	c.load("o1", "malformed", nil, []byte("{}"), "")
	c.load("o1", "malformed", nil, []byte("\"x\""), "/env")
	for k := 0; k < 40; k++ {
		c.load("o1", "malformed", nil, c.base[:len(c.base)-2-r.Rand.Intn(len(c.base)-2)], "")
	}
	// a value of the wrong type in each place
	for _, k := range []string{"v4multicast", "v6multicast", "udpport", "descriptor", "csumtype", "freespace", "txwilling", "rxwilling", "stream",
		"reqtstamp", "reqstatus", "udplite", "timestamp", "timezone", "sardir", "prompt", "ppad", "buffersize", "bcount", "timeout", "commands",
		"frameflags", "flags", "direntflags", "timestamps"} {
		for _, v := range []interface{}{nil, true, []int{1}} {
			m := c.fresh()
			m[k] = v
			b, _ := json.Marshal(m)
			c.load("o1", "wrongtype", nil, b, "")
		}
	}
	for i := 0; i < 50*r.Scale; i++ {
		c.begin()
		env := ""
		for k := 0; k < 8; k++ {
			o := fmt.Sprint("o", r.Rand.Intn(4))
			switch r.Rand.Intn(7) {
			case 0, 1:
				if r.Rand.Intn(3) == 0 {
					env = []string{"", "/e", "rel/dir", "/a b"}[r.Rand.Intn(4)]
				}
				m := c.fresh()
				c.vary(m, 1+r.Rand.Intn(8))
				c.loadCfg(o, m, env)
			case 2, 3:
				c.copy(o, fmt.Sprint("o", r.Rand.Intn(4)))
			case 4:
				c.flag(o, cfgFlags[r.Rand.Intn(len(cfgFlags))], "zz")
			case 5:
				c.field(o, cfgFields[r.Rand.Intn(len(cfgFields))])
			case 6:
				c.timeout(o, cfgTimes[r.Rand.Intn(6)])
			}
		}
	}
}
