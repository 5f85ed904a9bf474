package main

import (
	"fmt"
	"os"
	"time"

	"verif/harness/rec"

	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/sarwin"
	"github.com/jroimartin/gocui"
)

var gui *gocui.Gui

var handled = make(chan bool, 100)

// startGui runs the user interface on the stand-in for the terminal
func startGui() {
	sarwin.Cinfo.Prompt = sarflags.Cliflag.Prompt
	sarwin.Cinfo.Ppad = sarflags.Cliflag.Ppad
	g, err := gocui.NewGui(gocui.OutputNormal)
	if err != nil {
		rec.Fatal(err)
	}
	g.SetManagerFunc(sarwin.Layout)
	if err := sarwin.Keybindings(g); err != nil {
		rec.Fatal(err)
	}
	if err := g.SetKeybinding("", gocui.KeyF12, gocui.ModNone, func(*gocui.Gui, *gocui.View) error { handled <- true; return nil }); err != nil {
		rec.Fatal(err)
	}
	gui = g
	go func() {
		if err := g.MainLoop(); err != nil {
			fmt.Fprintln(os.Stderr, "the main loop ended:", err)
			os.Exit(3) // the program ends with it
		}
	}()
	flushGui()
}

// flushGui waits until the user interface has handled everything sent so far
func flushGui() {
	done := make(chan bool)
	gui.Update(func(*gocui.Gui) error { close(done); return nil })
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		rec.Fatal("the user interface does not answer")
	}
}

// tidyGui empties the windows, which grow with every line and slow everything down
func tidyGui() {
	done := make(chan bool)
	gui.Update(func(g *gocui.Gui) error {
		for _, v := range g.Views() {
			if v.Name() != "cmd" {
				v.Clear()
			}
		}
		close(done)
		return nil
	})
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		rec.Fatal("the user interface does not answer")
	}
}
