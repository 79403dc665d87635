package main

import (
	"strings"
)

// rnode is a parsed report of an expectation.
type rnode struct {
	Ok       bool
	Title    string
	Sections []*rsection
	Kids     []*rnode
}

type rsection struct {
	Title string
	Lines []string
}

func (n *rnode) section(title string) *rsection {
	for _, s := range n.Sections {
		if s.Title == title {
			return s
		}
	}
	return nil
}

func (s *rsection) text() string {
	if s == nil {
		return ""
	}
	return strings.Join(s.Lines, "\n")
}

// walk calls f for n and everything below it.
func (n *rnode) walk(f func(*rnode)) {
	f(n)
	for _, k := range n.Kids {
		k.walk(f)
	}
}

// parseReport parses the text of a report. It returns nil if the text is not a
// single tree.
func parseReport(text string) *rnode {
	_, text, _ = strings.Cut(text, "\n")
	ns, ok := parseNodes(strings.Split(text, "\n"))
	if !ok || len(ns) != 1 {
		return nil
	}
	return ns[0]
}

func parseNodes(lines []string) ([]*rnode, bool) {
	var out []*rnode
	var cur *rnode
	var kids []string
	ok := true
	flush := func() {
		if cur != nil {
			var good bool
			cur.Kids, good = parseNodes(kids)
			ok = ok && good
			kids = nil
		}
	}
	for _, l := range lines {
		pass := strings.HasPrefix(l, "✓ ")
		if pass || strings.HasPrefix(l, "✗ ") {
			flush()
			cur = &rnode{Ok: pass, Title: strings.TrimPrefix(strings.TrimPrefix(l, "✓ "), "✗ ")}
			out = append(out, cur)
			continue
		}
		if strings.TrimSpace(l) == "" {
			continue
		}
		if cur == nil {
			return nil, false
		}
		switch {
		case strings.HasPrefix(l, "    "):
			kids = append(kids, l[4:])
		case strings.HasPrefix(l, "  |"):
			l = strings.TrimPrefix(l[3:], " ")
			if strings.HasPrefix(l, "    ") {
				if n := len(cur.Sections); n > 0 {
					s := cur.Sections[n-1]
					s.Lines = append(s.Lines, l[4:])
				} else {
					ok = false
				}
			} else if strings.TrimSpace(l) != "" {
				cur.Sections = append(cur.Sections, &rsection{Title: l})
			} else if n := len(cur.Sections); n > 0 {
				s := cur.Sections[n-1]
				s.Lines = append(s.Lines, "")
			}
		default:
			ok = false
		}
	}
	flush()
	return out, ok
}
