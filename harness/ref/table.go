package ref

import "math/bits"

// RNode identifies a node of the routing table.
type RNode struct{ Id, Addr string }

// Table is the Kademlia rule as a model: bucket i holds the nodes whose common
// prefix with the host is i bits, the last bucket all longer ones; only the
// last bucket, which holds the host's own range, splits.
type Table struct {
	host     RNode
	k, cap   int
	last     int
	nodes    map[int][]RNode
	Splits   int
	Rejected int
}

func NewTable(host RNode, k, capacity int) *Table {
	return &Table{host: host, k: k, cap: capacity, nodes: map[int][]RNode{0: {host}}}
}

// PrefixLen is the number of leading bits a and b have in common.
func PrefixLen(a, b string) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if x := a[i] ^ b[i]; x != 0 {
			return 8*i + bits.LeadingZeros8(x)
		}
	}
	if len(a) < len(b) {
		return 8 * len(a)
	}
	return 8 * len(b)
}

func (t *Table) bucket(id string) int {
	if p := PrefixLen(id, t.host.Id); p < t.last {
		return p
	}
	return t.last
}

// Add inserts n and reports whether it is stored afterwards.
func (t *Table) Add(n RNode) bool {
	for {
		b := t.bucket(n.Id)
		for _, o := range t.nodes[b] {
			if o == n {
				return true
			}
		}
		if len(t.nodes[b]) < t.k {
			t.nodes[b] = append(t.nodes[b], n)
			return true
		}
		if b < t.last || t.last >= t.cap {
			t.Rejected++
			return false
		}
		old := t.nodes[b]
		t.nodes[b] = nil
		t.last++
		t.Splits++
		for _, o := range old {
			nb := t.bucket(o.Id)
			t.nodes[nb] = append(t.nodes[nb], o)
		}
	}
}

func (t *Table) Size() int {
	n := 0
	for _, b := range t.nodes {
		n += len(b)
	}
	return n
}

func (t *Table) Full() bool { return t.last >= t.cap && len(t.nodes[t.last]) >= t.k }

func (t *Table) Has(n RNode) bool {
	for _, o := range t.nodes[t.bucket(n.Id)] {
		if o == n {
			return true
		}
	}
	return false
}

func (t *Table) HasId(id string) bool {
	for _, o := range t.nodes[t.bucket(id)] {
		if o.Id == id {
			return true
		}
	}
	return false
}
