package verifrig

import (
	"strings"
	"unicode/utf8"
)

// Screen is what a terminal of w columns and h rows shows after out, one string for each row: the cursor is moved by
// ESC[row;columnH, the screen is cleared by ESC[2J and everything else but text is ignored. All characters are taken to
// be one column wide.
func Screen(out string, w, h int) []string {
	cells := make([][]rune, h)
	clear := func() {
		for i := range cells {
			cells[i] = []rune(strings.Repeat(" ", w))
		}
	}
	clear()
	x, y := 0, 0
	for 0 < len(out) {
		if out[0] == 0x1b {
			if len(out) < 2 {
				break
			}
			if out[1] != '[' {
				n := 2
				if out[1] == '(' || out[1] == ')' {
					n = 3
				}
				if len(out) < n {
					break
				}
				out = out[n:]
				continue
			}
			end := 2
			for end < len(out) && (out[end] < 0x40 || 0x7e < out[end]) {
				end++
			}
			if end == len(out) {
				break
			}
			args := strings.Split(out[2:end], ";")
			arg := func(i int) (n int) {
				if i < len(args) {
					for _, c := range args[i] {
						if '0' <= c && c <= '9' {
							n = n*10 + int(c-'0')
						}
					}
				}
				return
			}
			switch out[end] {
			case 'H':
				y, x = arg(0)-1, arg(1)-1
				if y < 0 {
					y = 0
				}
				if x < 0 {
					x = 0
				}
			case 'J':
				clear()
			}
			out = out[end+1:]
			continue
		}
		r, n := utf8.DecodeRuneInString(out)
		out = out[n:]
		switch {
		case r == '\r':
			x = 0
		case r == '\n':
			y++
		case r < ' ':
		default:
			if y < h && x < w {
				cells[y][x] = r
			}
			x++
		}
	}
	rows := make([]string, h)
	for i := range cells {
		rows[i] = string(cells[i])
	}
	return rows
}
