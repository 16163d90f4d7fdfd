// Package oto stands in for the audio device: it hands what is played to a
// monitor (OnWrite) or to a file (VERIF_OTO_OUT), pacing like a device.
package oto

import (
	"fmt"
	"os"
	"sync"
	"time"
)

// OnContext is told about the parameters of the device.
var OnContext func(sampleRate, channelNum, bitDepthInBytes, bufferSizeInBytes int)

// OnWrite receives what is played.
var OnWrite func(buf []byte) (int, error)

// Context of a device.
type Context struct{ bytesPerSecond, buffer int }

// Player of a device.
type Player struct {
	c     *Context
	mu    sync.Mutex
	out   *os.File
	start time.Time
	n     int64
}

// NewContext opens the device.
func NewContext(sampleRate, channelNum, bitDepthInBytes, bufferSizeInBytes int) (*Context, error) {
	if OnContext != nil {
		OnContext(sampleRate, channelNum, bitDepthInBytes, bufferSizeInBytes)
	}
	if n := os.Getenv("VERIF_OTO_CTX"); n != "" {
		if f, err := os.Create(n); err == nil {
			fmt.Fprintf(f, "%d %d %d .", sampleRate, channelNum, bitDepthInBytes)
			f.Close()
		}
	}
	return &Context{sampleRate * channelNum * bitDepthInBytes, bufferSizeInBytes}, nil
}

// NewPlayer opens a player.
func (c *Context) NewPlayer() *Player {
	p := &Player{c: c}
	if n := os.Getenv("VERIF_OTO_OUT"); n != "" {
		p.out, _ = os.Create(n)
	}
	return p
}

// Write plays buf.
func (p *Player) Write(buf []byte) (int, error) {
	if OnWrite != nil {
		return OnWrite(buf)
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.out != nil {
		p.out.Write(buf)
	}
	now := time.Now()
	if p.n == 0 || now.After(p.start.Add(time.Duration(float64(p.n)/float64(p.c.bytesPerSecond)*1e9))) {
		p.start, p.n = now, 0
	}
	p.n += int64(len(buf))
	due := p.start.Add(time.Duration(float64(p.n-int64(p.c.buffer)) / float64(p.c.bytesPerSecond) * 1e9))
	time.Sleep(due.Sub(now))
	return len(buf), nil
}

// SetUnderrunCallback does nothing.
func (p *Player) SetUnderrunCallback(f func()) {}

// Close closes.
func (p *Player) Close() error { return nil }

// Close closes.
func (c *Context) Close() error { return nil }
