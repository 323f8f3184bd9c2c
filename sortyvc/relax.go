package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
)

// Relaxed tells which candidate invariants to try when code has changed: those needed
// before, of any loop, with variables matched by name or by order.
type Relaxed struct {
	hints map[string][]string // by loop
	voc   map[string][]string
}

func splitLoop(s string) (string, string) {
	k := strings.IndexByte(s, ' ')
	return s[:k], s[k+1:]
}

func newRelaxed(hints, vocab []string) *Relaxed {
	r := &Relaxed{map[string][]string{}, map[string][]string{}}
	for _, h := range hints {
		l, n := splitLoop(h)
		r.hints[l] = append(r.hints[l], n)
	}
	for _, h := range vocab {
		l, n := splitLoop(h)
		r.voc[l] = append(r.voc[l], n)
	}
	return r
}

// words of a loop: kind and name of each variable
func (lv *LoopV) words() (ws []string) {
	for _, x := range lv.ints {
		k := "i"
		if x.changed {
			k = "I"
		}
		ws = append(ws, k+x.name)
	}
	for _, x := range lv.slices {
		k := "s"
		if x.changed {
			k = "S"
		}
		ws = append(ws, k+x.name)
	}
	for _, x := range lv.elems {
		k := "e"
		if x.get(lv.hd) != x.get(lv.pre) {
			k = "E"
		}
		ws = append(ws, k+x.name)
	}
	return
}

func (f *FV) vocab() (out []string) {
	for _, lv := range f.loops {
		for _, w := range lv.words() {
			out = append(out, fmt.Sprintf("%d %s", lv.id, w))
		}
	}
	return
}

var register = regexp.MustCompile(`^t\d+'*$`)

// match pairs variables: by name, the rest in order from the start or the end
func match(old, now []string, fromEnd bool) map[string]string {
	m := map[string]string{}
	used := map[string]bool{}
	has := map[string]bool{}
	for _, n := range now {
		has[n[1:]] = true
	}
	for _, o := range old {
		if n := o[1:]; has[n] && !register.MatchString(n) {
			m[n], used[n] = n, true
		}
	}
	rest := func(ws []string, k byte, done func(n string) bool) (out []string) {
		for _, w := range ws {
			if n := w[1:]; w[0] == k && !done(n) && !strings.HasSuffix(n, "@0") && !strings.Contains(n, "+") {
				out = append(out, n)
			}
		}
		return
	}
	for _, k := range []byte("IiSsEe") {
		a := rest(old, k, func(n string) bool { return m[n] != "" })
		b := rest(now, k, func(n string) bool { return used[n] })
		for i := 0; i < len(a) && i < len(b); i++ {
			x, y := a[i], b[i]
			if fromEnd {
				x, y = a[len(a)-1-i], b[len(b)-1-i]
			}
			m[x], used[y] = y, true
			if m[x+"@0"] == "" {
				m[x+"@0"] = y + "@0"
			}
		}
	}
	return m
}

// loop gives names of candidates for a loop
func (r *Relaxed) loop(lv *LoopV) map[string]bool {
	out := map[string]bool{}
	now := lv.words()
	for l, hs := range r.hints {
		for _, h := range hs {
			out[h] = true
		}
		for _, e := range []bool{false, true} {
			m := match(r.voc[l], now, e)
			var names []string
			for n, to := range m {
				if n != to {
					names = append(names, n)
				}
			}
			if len(names) == 0 {
				continue
			}
			sort.Slice(names, func(i, j int) bool { return len(names[i]) > len(names[j]) })
			for _, h := range hs {
				out[rename(h, names, m)] = true
			}
		}
	}
	return out
}

func rename(s string, names []string, m map[string]string) string {
	word := func(c byte) bool {
		return c == '_' || c == '\'' || c == '@' || '0' <= c && c <= '9' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z'
	}
	var sb strings.Builder
next:
	for i := 0; i < len(s); {
		if i == 0 || !word(s[i-1]) {
			for _, n := range names {
				if strings.HasPrefix(s[i:], n) && (i+len(n) == len(s) || !word(s[i+len(n)])) {
					sb.WriteString(m[n])
					i += len(n)
					continue next
				}
			}
		}
		sb.WriteByte(s[i])
		i++
	}
	return sb.String()
}
