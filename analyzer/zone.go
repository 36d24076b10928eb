package main

// Zone: difference bound matrices over integer variables. Variable 0 is the
// constant 0. d[i][j] is the least known upper bound of x_i - x_j.

const inf = int64(1) << 50

type Zone struct {
	d [][]int64
}

func newZone() *Zone {
	z := &Zone{}
	z.newVar()
	return z
}

func (z *Zone) newVar() int {
	n := len(z.d)
	for i := range z.d {
		z.d[i] = append(z.d[i], inf)
	}
	row := make([]int64, n+1, n+16)
	for j := range row {
		row[j] = inf
	}
	row[n] = 0
	z.d = append(z.d, row)
	return n
}

// le reports whether x_i - x_j <= c is entailed.
func (z *Zone) le(i, j int, c int64) bool { return z.d[i][j] <= c }

// can reports whether x_i - x_j <= c is consistent.
func (z *Zone) can(i, j int, c int64) bool { return z.d[j][i]+c >= 0 }

// add adds x_i - x_j <= c and reports whether the zone is still non-empty.
func (z *Zone) add(i, j int, c int64) bool {
	if z.d[i][j] <= c {
		return true
	}
	if z.d[j][i]+c < 0 {
		return false
	}
	n := len(z.d)
	for a := 0; a < n; a++ {
		ai := z.d[a][i]
		if ai >= inf {
			continue
		}
		row := z.d[a]
		zj := z.d[j]
		for b := 0; b < n; b++ {
			if zj[b] >= inf {
				continue
			}
			if s := ai + c + zj[b]; s < row[b] {
				row[b] = s
			}
		}
	}
	return true
}
