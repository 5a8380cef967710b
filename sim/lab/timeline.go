package lab

import (
	"fmt"
	"sort"
	"strings"
	"time"
)

// What a callback writes and records may come from several goroutines at once.
// Everything it does has an interval of the history in which it took effect;
// the report must show an order in which each effect falls into its interval.

// chunk is something that was written.
type chunk struct {
	lo, hi int // between these points of the history
	text   string
	at     int // where it was found
	what   string
}

// titem is an item of the timeline: one that should be there (what, lo, hi), or
// one that is (what, order, off, t).
type titem struct {
	order, off int
	what       string
	t          time.Time
	lo, hi     int
}

// place finds the chunks in the text, in an order that the history allows.
func place(text string, cs []*chunk) (ok bool, msg string) {
	left := append([]*chunk(nil), cs...)
	pos := 0
	for len(left) > 0 {
		first := left[0].hi
		for _, c := range left {
			first = min(first, c.hi)
		}
		var best *chunk
		at := -1
		var want []string
		for i, c := range left {
			if c.lo > first {
				continue
			}
			want = append(want, clip(c.text))
			if strings.HasPrefix(text[pos:], c.text) && (best == nil || len(c.text) > len(best.text) || len(c.text) == len(best.text) && c.lo < best.lo) {
				best, at = c, i
			}
		}
		if best == nil {
			return false, fmt.Sprintf("after %d bytes it has %q, it should have %q", pos, clip(text[pos:]), strings.Join(want, " or "))
		}
		best.at = pos
		pos += len(best.text)
		left = append(left[:at:at], left[at+1:]...)
	}
	if pos != len(text) {
		return false, fmt.Sprintf("after %d bytes it has %q, it should end there", pos, clip(text[pos:]))
	}
	return true, ""
}

// spans of the history in quarters of an event, so that something can lie
// right before or after one.
func before(seq int) int { return 4*seq - 1 }
func after(seq int) int  { return 4*seq + 1 }

// did lists what a unit wrote and recorded.
func (v *view) did(m *msuite, u *unit, byBody map[string]bool) (want []titem, gw []*chunk, out []*chunk) {
	// the end of what began with event i
	end := func(i int, kind string) int {
		e := &u.ev[i]
		for j := i + 1; j < len(u.ev); j++ {
			if f := &u.ev[j]; f.Kind == kind && f.ID == e.ID && f.Ex == e.Ex && f.S == e.S {
				return f.Seq
			}
		}
		return 1 << 40
	}
	for i := range u.ev {
		e := &u.ev[i]
		lo := 4 * e.Seq
		switch e.Kind {
		case "gw":
			gw = append(gw, &chunk{lo: lo, hi: 4 * end(i, "gw!"), text: e.S})
		case "out", "err":
			out = append(out, &chunk{lo: lo, hi: 4 * end(i, e.Kind+"!"), text: e.S})
		case "enter":
			want = append(want, titem{lo: before(e.Seq), hi: before(e.Seq), what: fmt.Sprintf("start of the node at line %d", v.lineOf(m, e.ID))})
		case "exit":
			want = append(want, titem{lo: after(e.Seq), hi: after(e.Seq), what: fmt.Sprintf("end of the node at line %d", v.lineOf(m, e.ID))})
		case "by":
			k := "by!"
			if byBody[e.S] {
				k = "byin"
			}
			want = append(want, titem{lo: lo, hi: 4 * end(i, k), what: "step " + e.S})
		case "byout":
			want = append(want, titem{lo: lo, hi: 4 * end(i, "by!"), what: "end of step " + e.S})
		case "entry":
			want = append(want, titem{lo: lo, hi: 4 * end(i, "entry!"), what: "entry " + e.S})
		}
	}
	return want, gw, out
}

// timeline compares the items of a report with what was recorded.
func (v *view) timeline(m *msuite, u *unit, want, got []titem, gw []*chunk, placed bool) {
	sort.SliceStable(got, func(i, j int) bool { return got[i].order < got[j].order })
	total := 0
	for _, c := range gw {
		total += len(c.text)
	}
	left := want
	for i := range got {
		v.fact("timeline items")
		g := &got[i]
		first := 1 << 60
		for j := range left {
			first = min(first, left[j].hi)
		}
		at := -1
		var may []string
		for j := range left {
			if left[j].lo > first {
				continue
			}
			may = append(may, left[j].what)
			if left[j].what == g.what && (at < 0 || left[j].lo < left[at].lo) {
				at = j
			}
		}
		if at < 0 {
			if may == nil {
				may = []string{"nothing"}
			}
			v.add("timeline", "C17", "suite %s: %v: item %d of its timeline is %q, it should be %q", m.su.Name, u, i, g.what, strings.Join(may, " or "))
			return
		}
		w := left[at]
		left = append(left[:at:at], left[at+1:]...)
		if !placed {
			continue
		}
		least, most, edge := 0, total, g.off == 0
		for _, c := range gw {
			e := c.at + len(c.text)
			if c.hi < w.lo {
				least = max(least, e)
			}
			if c.lo > w.hi {
				most = min(most, c.at)
			}
			edge = edge || g.off == e
		}
		if g.off < least || g.off > most || !edge {
			v.add("timeline-offset", "C15 C17 C22", "suite %s: %v: %s is placed after %d bytes of output, it happened after %s", m.su.Name, u, g.what, g.off, fromTo(least, most))
			return
		}
		if i > 0 && g.off < got[i-1].off {
			v.add("timeline-offset", "C15 C17 C22", "suite %s: %v: %s is placed after %d bytes of output, %s before it after %d", m.su.Name, u, g.what, g.off, got[i-1].what, got[i-1].off)
			return
		}
	}
	if len(left) > 0 {
		v.add("timeline", "C17", "suite %s: %v: item %d of its timeline is %q, it should be %q", m.su.Name, u, len(got), "nothing", left[0].what)
	}
}

func fromTo(a, b int) string {
	if a == b {
		return fmt.Sprint(a)
	}
	return fmt.Sprintf("%d to %d", a, b)
}

const bailout = "Ginkgo detected an issue while intercepting output"

// captured works out what of the output of a unit belongs into its report: not
// what was written during a pause, nor what a child process kept from ending.
// What a group leaves to its end is captured anew, from event number split on.
func (v *view) captured(u *unit, out []*chunk, split int) (cs []*chunk, sure bool) {
	sure = true
	part := 0
	slack := 15*v.p.Sched.PauseMax + 4*v.p.Sched.StallMax + 3e8
	type holder struct{ from, to int64 }
	type window struct {
		key    string
		paused bool
		cur    []*chunk
		hold   []holder
		pos    int
	}
	find := func(e *Event) *chunk {
		for _, c := range out {
			if c.lo == 4*e.Seq {
				return c
			}
		}
		return nil
	}
	var w *window
	// what was captured up to now is collected
	collect := func(t, most int64, seq int) {
		if w == nil {
			return
		}
		late := int64(0)
		for _, h := range w.hold {
			late = max(late, h.to)
		}
		switch {
		case len(w.hold) == 0 || late-t < 1e9-slack:
			cs = append(cs, w.cur...)
		case late-most > 1e9+slack:
			cs = append(cs, &chunk{lo: 4*seq + 1, hi: 4*seq + 1, what: "bailout"})
		default:
			sure = false
		}
		w.cur, w.hold = nil, nil
	}
	var last *Event
	for i := range u.ev {
		e := &u.ev[i]
		k := ""
		if kd := kindOf(e.ID); reportKind(kd) || kd == "sbs" || kd == "sas" {
			k = fmt.Sprintf("%s/%d", e.ID, e.Ex)
		} else {
			if e.Seq == split {
				part++
			}
			k = fmt.Sprintf("%d.%d", e.Att, part)
		}
		if w == nil || w.key != k {
			if last != nil {
				if !w.paused {
					collect(last.T, max(e.T, last.T), last.Seq)
				} else {
					w.cur, w.hold = nil, nil
				}
			}
			w = &window{key: k}
		}
		last = e
		switch e.Kind {
		case "out", "err":
			if !w.paused {
				w.cur = append(w.cur, find(e))
			}
		case "hold":
			var ms int64
			fmt.Sscan(e.S, &ms)
			if !w.paused {
				w.hold = append(w.hold, holder{e.T, e.T + ms*1e6})
			}
		case "pauseout":
			if !w.paused {
				collect(e.T, e.T, e.Seq)
			}
			w.paused = true
		case "resumeout!":
			w.paused = false
		}
	}
	if w != nil && !w.paused {
		most := last.T
		if kindOf(last.ID) == "sas" && u.pv.proc == 1 { // it may have waited for the others
			most = 1 << 60
		}
		collect(last.T, most, last.Seq)
	}
	return cs, sure
}
