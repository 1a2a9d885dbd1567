package h

// logical is one command line after continuation lines were joined.
type logical struct {
	s   string
	off []int // byte offset in the file of each byte of s, and of its end
	ln  []int // line numbers, 1-based, likewise
	col []int // columns, 1-based, likewise

	start int // offset of the first line
}

// refLines splits a file into logical lines: lines end with LF or CR LF, and a
// line whose first non-blank character is a backslash continues the one before.
func refLines(src string) []logical {
	var l []logical
	num := 0
	for i := 0; i < len(src); {
		num++
		j := i
		for j < len(src) && src[j] != '\n' {
			j++
		}
		end := j
		if end > i && src[end-1] == '\r' {
			end--
		}
		k := i
		for k < end && (src[k] == ' ' || src[k] == '\t') {
			k++
		}
		if len(l) > 0 && k < end && src[k] == '\\' {
			p := &l[len(l)-1]
			n := len(p.s)
			p.off, p.ln, p.col = p.off[:n], p.ln[:n], p.col[:n]
			p.add(src, k+1, end, i, num)
		} else {
			p := logical{start: i}
			p.add(src, i, end, i, num)
			l = append(l, p)
		}
		i = j + 1
	}
	return l
}

func (p *logical) add(src string, from, to, start, num int) {
	p.s += src[from:to]
	for k := from; k <= to; k++ {
		p.off = append(p.off, k)
		p.ln = append(p.ln, num)
		p.col = append(p.col, k-start+1)
	}
}

// at is the text of a position in the line.
func (p *logical) at(i int) string { return posText(p.off[i], p.ln[i], p.col[i]) }
