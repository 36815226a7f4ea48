package sim

import (
	"fmt"

	"verifsim/rt"
)

// Short is a one-line form of the operation.
func (o *Op) Short() string {
	s := fmt.Sprintf("#%d %s", o.ID, o.K)
	switch o.K {
	case VLoad, VPub, VClone, TBegin, TTrack, TClone, TSend, TRecv, TCommit, TCommitOnly, TLinear:
		s += fmt.Sprintf("(%d,%d)", o.A, o.B)
	case IOpen:
		s += fmt.Sprintf("(%d,%d %s %s)", o.A, o.B, itNames[o.C], qk(o.Key))
	case INext:
		s += fmt.Sprintf("(%d x%d)", o.A, o.N)
	case TBulkIns, TBulkDel:
		s += fmt.Sprintf("(%d %d keys)", o.A, len(o.Keys))
		if len(o.Keys) <= 6 {
			for _, k := range o.Keys {
				s += " " + qk(k)
			}
		}
	case VInsert, VDelete, VDelPrefix:
		s += fmt.Sprintf("(%d,%d %s)", o.A, o.B, qk(o.Key))
	case VLen, TLen, TNotify, TAbort, TRecheck, VRecheck, VMin, VMax:
		s += fmt.Sprintf("(%d)", o.A)
	case VNodes, TNodes:
		s += fmt.Sprintf("(%d,%d %s)", o.A, o.B, qk(o.Key))
	default:
		s += fmt.Sprintf("(%d %s)", o.A, qk(o.Key))
	}
	if o.Track {
		s += " track"
	}
	if o.Freeze > 0 {
		s += fmt.Sprintf(" freeze@%d", o.Freeze)
	}
	if o.Buf > 0 {
		s += fmt.Sprintf(" buf%d", o.Buf)
	}
	return s
}

// Readable describes a program and its schedule in words.
func Readable(p *Program, ds []rt.Decision, sites []string) []string {
	var out []string
	for _, i := range p.Init {
		if i.Del {
			out = append(out, fmt.Sprintf("init delete %s", qk(i.Key)))
		} else {
			out = append(out, fmt.Sprintf("init insert %s=%d", qk(i.Key), i.Val))
		}
		if len(out) > 80 {
			out = append(out, "...")
			break
		}
	}
	for i, t := range p.Tasks {
		for _, o := range t {
			out = append(out, fmt.Sprintf("task %d: %s", i, o.Short()))
		}
	}
	for _, d := range ds {
		where := fmt.Sprintf("after #%d", d.Op)
		switch {
		case d.Task < 0:
			out = append(out, fmt.Sprintf("schedule: start with task %d", d.To))
			continue
		case d.At == -2:
			where = "at its end"
		case d.At >= 0:
			s := ""
			if d.Site > 0 && int(d.Site) < len(sites) {
				s = " before " + sites[d.Site]
			}
			where = fmt.Sprintf("in #%d at step %d%s", d.Op, d.At, s)
		}
		out = append(out, fmt.Sprintf("schedule: task %d %s -> task %d", d.Task, where, d.To))
		if len(out) > 400 {
			out = append(out, "...")
			break
		}
	}
	return out
}
