package lib

import "bytes"

// Proof is an inclusion proof as it is on the wire.
type Proof struct {
	Siblings [][]byte
	Path     uint32
}

// Tree computes root and proofs for the given leaf data: rows of odd length repeat their last node.
func Tree(data [][]byte) (root []byte, proofs []Proof) {
	if len(data) == 0 {
		return sha(nil), nil
	}
	row := [][]byte{}
	pos := make([]int, len(data))
	proofs = make([]Proof, len(data))
	for i, d := range data {
		row = append(row, sha(d))
		pos[i] = i
	}
	if len(row) == 1 {
		row = append(row, row[0])
	}
	for step := 0; len(row) > 1; step++ {
		if len(row)%2 == 1 {
			row = append(row, row[len(row)-1])
		}
		for i := range data {
			p := pos[i]
			proofs[i].Siblings = append(proofs[i].Siblings, row[p^1])
			if p%2 == 0 {
				proofs[i].Path |= 1 << step
			}
			pos[i] = p / 2
		}
		next := [][]byte{}
		for i := 0; i < len(row); i += 2 {
			next = append(next, sha(append(append([]byte{}, row[i]...), row[i+1]...)))
		}
		row = next
	}
	return row[0], proofs
}

// Included tells whether the proof leads from the data to the root.
func Included(data []byte, p *Proof, root []byte) bool {
	if p == nil {
		return false
	}
	h := sha(data)
	path := p.Path
	for _, s := range p.Siblings {
		if path&1 == 1 {
			h = sha(append(append([]byte{}, h...), s...))
		} else {
			h = sha(append(append([]byte{}, s...), h...))
		}
		path >>= 1
	}
	return bytes.Equal(h, root)
}
