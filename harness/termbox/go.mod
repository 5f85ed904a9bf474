module github.com/nsf/termbox-go

go 1.15

require github.com/mattn/go-runewidth v0.0.9
