module github.com/hajimehoshi/oto

go 1.12

require (
	golang.org/x/mobile v0.0.0-20190415191353-3e0bab5405d6
	golang.org/x/sys v0.0.0-20190429190828-d89cdac9e872
)
