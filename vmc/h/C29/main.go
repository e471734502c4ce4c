// C29: UDP port selection under every occupancy of a range and every starting port.
package main

import (
	"errors"
	"fmt"
	"net"
	"net/netip"
	"os"
	"syscall"

	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/vh"
)

var v4, v6 = netip.MustParseAddr("127.0.0.1"), netip.MustParseAddr("::1")

func bindable(ip netip.Addr, port int) *net.UDPConn {
	c, err := net.ListenUDP("udp", net.UDPAddrFromAddrPort(netip.AddrPortFrom(ip, uint16(port))))
	if err != nil {
		return nil
	}
	return c
}

// hasV6 tells whether the sandbox has an IPv6 loopback.
func hasV6() bool {
	c := bindable(v6, 0)
	if c == nil {
		return false
	}
	c.Close()
	return true
}

// region finds n consecutive ports nobody uses, below the range the kernel hands out.
func region(r *vh.R, slot, n int) int {
next:
	for base := 11000 + 1200*slot; base < 11000+1200*(slot+1)-n; base += n {
		for p := base; p < base+n; p++ {
			for _, ip := range []netip.Addr{v4, v6, netip.IPv4Unspecified()} {
				if ip == v6 && !hasV6() {
					continue
				}
				c := bindable(ip, p)
				if c == nil {
					continue next
				}
				c.Close()
			}
		}
		return base
	}
	return 0
}

// what a port does when it is tried.
const (
	free = iota
	taken
	takenWrapped
	denied
	odd
)

var errOdd = errors.New("odd")

func outcome(kind int) error {
	switch kind {
	case taken:
		return syscall.EADDRINUSE
	case takenWrapped:
		return fmt.Errorf("wrapped: %w", os.NewSyscallError("bind", syscall.EADDRINUSE))
	case denied:
		return syscall.EACCES
	case odd:
		return errOdd
	}
	return nil
}

type tries struct {
	ports []int
	hosts []string
}

// listen runs one search in which every port behaves as kind says, and judges it.
// lo and hi are the effective range; lo 0 means any port.
func listen(r *vh.R, ip netip.Addr, min, max, lo, hi int, kind func(port int) int) (first int, ok bool) {
	var t tries
	lc := &net.ListenConfig{Control: func(network, address string, _ syscall.RawConn) error {
		ap, err := netip.ParseAddrPort(address)
		if err != nil {
			return err
		}
		t.ports = append(t.ports, int(ap.Port()))
		t.hosts = append(t.hosts, ap.Addr().String())
		return outcome(kind(int(ap.Port())))
	}}
	c, err := rtp.ListenUDPPortRangeWithConfig(min, max, ip, lc)
	desc := func() string {
		return fmt.Sprintf("range %d-%d on %v: tried %v, got %v, %v", min, max, ip, short(t.ports), c != nil, err)
	}
	if c != nil {
		defer c.Close()
	}
	first = -1
	seen := map[int]bool{}
	for i, p := range t.ports {
		if i == 0 {
			first = p
		}
		if p < lo || p > hi || seen[p] {
			r.Fail("tries", "%s", desc())
			return first, false
		}
		if t.hosts[i] != ip.String() {
			r.Fail("address", "%s: tried on %s", desc(), t.hosts[i])
			return first, false
		}
		seen[p] = true
		busy := kind(p) == taken || kind(p) == takenWrapped
		if last := i == len(t.ports)-1; !last && !busy || last && busy && len(t.ports) != hi-lo+1 {
			r.Fail("tries", "%s", desc())
			return first, false
		}
	}
	if len(t.ports) == 0 {
		if c != nil || err == nil || lo <= hi && hi <= 65535 {
			r.Fail("empty", "%s", desc())
			return first, false
		}
		return first, true
	}
	last := t.ports[len(t.ports)-1]
	switch kind(last) {
	case free:
		if err != nil || c == nil {
			r.Fail("free", "%s though %d is free", desc(), last)
			return first, false
		}
		la := c.LocalAddr().(*net.UDPAddr)
		if got := la.AddrPort(); !on(got.Addr(), ip) || last != 0 && int(got.Port()) != last || got.Port() == 0 {
			r.Fail("bound", "%s: bound to %v", desc(), got)
			return first, false
		}
	default:
		if err == nil || c != nil {
			r.Fail("failure", "%s", desc())
			return first, false
		}
		if e := outcome(kind(last)); (kind(last) == denied || kind(last) == odd) && !errors.Is(err, e) {
			r.Fail("failure", "%s, want %v", desc(), e)
			return first, false
		}
		if (kind(last) == taken || kind(last) == takenWrapped) && lo != hi && !errors.Is(err, rtp.ErrListenFailed) {
			r.Fail("failure", "%s, want %v", desc(), rtp.ErrListenFailed)
			return first, false
		}
	}
	return first, true
}

// on tells whether a socket bound to got serves ip.
func on(got, ip netip.Addr) bool {
	return got.Unmap() == ip || ip.IsUnspecified() && got.IsUnspecified()
}

func short(p []int) string {
	if len(p) > 20 {
		return fmt.Sprintf("%v… (%d)", p[:20], len(p))
	}
	return fmt.Sprint(p)
}

// each runs body under every random choice.
func each(r *vh.R, body func() bool) {
	r.Explore(vh.Opt{Bound: 0}, func() {
		if !body() {
			vh.Fail("search", "see above")
		}
	})
}

// patterns tries every behaviour of every port of a range from every start.
func patterns(ip netip.Addr, slot, n int, kinds []int, thorough bool) vh.Scenario {
	return vh.Scenario{Name: fmt.Sprintf("patterns-%v-%d-%d", ip, n, len(kinds)), Thorough: thorough, Run: func(r *vh.R) {
		if ip.Is6() && !hasV6() {
			r.Notef("no IPv6 loopback here")
			r.Case()
			r.Nontrivial(0)
			return
		}
		base := region(r, slot, n)
		if base == 0 {
			r.Notef("no free ports to use")
			return
		}
		starts := map[int]bool{}
		vh.Seqs(n, len(kinds), func(seq []int) bool {
			each(r, func() bool {
				f, ok := listen(r, ip, base, base+n-1, base, base+n-1, func(p int) int {
					if p < base || p >= base+n {
						return odd
					}
					return kinds[seq[p-base]]
				})
				starts[f] = true
				r.Step(1)
				r.State(fmt.Sprint(seq, f-base))
				return ok
			})
			r.Nontrivial(fmt.Sprint(seq))
			return !r.Stop()
		})
		r.Notef("%d of %d ports were tried first", len(starts), n)
	}}
}

// bounds tries every pair of bounds from a set, each with one port of interest.
func bounds(ip netip.Addr, slot int) vh.Scenario {
	return vh.Scenario{Name: fmt.Sprintf("bounds-%v", ip), Run: func(r *vh.R) {
		if ip.Is6() && !hasV6() {
			r.Notef("no IPv6 loopback here")
			r.Case()
			r.Nontrivial(0)
			return
		}
		base := region(r, slot, 4)
		if base == 0 {
			r.Notef("no free ports to use")
			return
		}
		const all = -2 // every port odd
		full := map[[2]int]bool{}
		vals := []int{-65536, -1, 0, 1, 2, 3, base, base + 1, base + 3, 65530, 65533, 65534, 65535, 65536, 65537, 70000}
		for _, min := range vals {
			for _, max := range vals {
				lo, hi := min, max
				any := min <= 0 && max <= 0
				if any {
					lo, hi = 0, 0
				} else if min != max {
					if lo <= 0 {
						lo = 1
					}
					if hi <= 0 || hi > 65535 {
						hi = 65535
					}
				}
				// every port taken, but one that is odd or may be bound
				targets := []int{lo, lo + 1, (lo + hi) / 2, hi - 1, hi, -1, base, base + 2}
				kinds := []int{odd, denied, free}
				if hi-lo > 1000 {
					targets = []int{lo, hi, -1}
					kinds = []int{odd}
					if full[[2]int{lo, hi}] {
						targets = []int{all}
					}
					full[[2]int{lo, hi}] = true
				}
				seen := map[int]bool{}
				for _, target := range targets {
					if seen[target] || target >= 0 && (target < lo || target > hi) {
						continue
					}
					seen[target] = true
					for _, k := range kinds {
						// only ports known to be free are bound for real
						if k == free && !(any || target >= base && target < base+4) {
							continue
						}
						each(r, func() bool {
							_, ok := listen(r, ip, min, max, lo, hi, func(p int) int {
								if p == target || target == all {
									return k
								}
								return taken
							})
							return ok
						})
						r.Step(1)
						r.State(min, max, target, k)
						r.Nontrivial(min, max, target, k)
						if r.Stop() {
							return
						}
					}
				}
			}
		}
	}}
}

// histories runs every sequence of listening and closing on real sockets.
func histories(name string, ip netip.Addr, slot, ports, n int, conf bool) vh.Scenario {
	return vh.Scenario{Name: name, Run: func(r *vh.R) {
		if ip.Is6() && !hasV6() {
			r.Notef("no IPv6 loopback here")
			r.Case()
			r.Nontrivial(0)
			return
		}
		base := region(r, slot, ports)
		if base == 0 {
			r.Notef("no free ports to use")
			return
		}
		vh.Seqs(r.Pick(n, n+1), 1+ports, func(seq []int) bool {
			each(r, func() bool {
				open := map[int]*net.UDPConn{}
				defer func() {
					for _, c := range open {
						c.Close()
					}
				}()
				for k, o := range seq {
					r.Step(1)
					if o > 0 { // close this port if it is open
						if c := open[base+o-1]; c != nil {
							c.Close()
							delete(open, base+o-1)
						}
						continue
					}
					var c *net.UDPConn
					var err error
					if conf {
						c, err = rtp.ListenUDPPortRangeWithConfig(base, base+ports-1, ip, &net.ListenConfig{})
					} else {
						c, err = rtp.ListenUDPPortRange(base, base+ports-1, ip)
					}
					if len(open) == ports {
						if err == nil || c != nil || !errors.Is(err, rtp.ErrListenFailed) {
							r.Fail("failure", "%v, step %d: all taken, but got %v, %v", seq, k+1, c != nil, err)
							return false
						}
						continue
					}
					if err != nil || c == nil {
						r.Fail("free", "%v, step %d: %d of %d taken, but got %v", seq, k+1, len(open), ports, err)
						return false
					}
					p := c.LocalAddr().(*net.UDPAddr)
					if p.Port < base || p.Port >= base+ports || open[p.Port] != nil || !on(p.AddrPort().Addr(), ip) {
						c.Close()
						r.Fail("bound", "%v, step %d: bound to %v", seq, k+1, p)
						return false
					}
					open[p.Port] = c
					r.State(fmt.Sprint(len(open), p.Port-base, k))
				}
				return true
			})
			r.Nontrivial(fmt.Sprint(seq))
			return !r.Stop()
		})
	}}
}

// plain checks the unset and equal bounds of the function without a configuration.
func plain(r *vh.R) {
	for _, ip := range []netip.Addr{v4, netip.IPv4Unspecified(), v6} {
		if ip.Is6() && !hasV6() {
			continue
		}
		base := region(r, 20, 2)
		if base == 0 {
			r.Notef("no free ports to use")
			return
		}
		for _, m := range [][2]int{{0, 0}, {-1, 0}, {0, -1}, {base, base}, {base + 1, base}, {65536, 70000}} {
			for _, busy := range []bool{false, true} {
				r.Case()
				r.Step(1)
				r.State(ip, m, busy)
				r.Nontrivial(ip, m, busy)
				var other *net.UDPConn
				if busy {
					other = bindable(ip, base)
				}
				c, err := rtp.ListenUDPPortRange(m[0], m[1], ip)
				want := m[0] <= 0 || m[0] == m[1] && !busy
				if (err == nil) != want || (c != nil) != want {
					r.Fail("plain", "%v on %v, taken %v: %v, %v", m, ip, busy, c != nil, err)
				}
				if c != nil {
					if p := c.LocalAddr().(*net.UDPAddr).Port; p == 0 || m[0] > 0 && p != base {
						r.Fail("plain", "%v on %v: bound to %d", m, ip, p)
					}
					c.Close()
				}
				if other != nil {
					other.Close()
				}
			}
		}
	}
}

func main() {
	full := []int{free, taken, takenWrapped, denied, odd}
	three := []int{free, taken, denied}
	two := []int{free, taken}
	vh.Main(vh.Check{ID: "C29", Level: "model_checking",
		Rule: "every behaviour (free, taken, other errors) of every port of ranges of up to 8 ports, from every starting port, on IPv4 and IPv6; every pair of bounds from 16 values; every history of 5 listens and closes on real sockets",
		Scenarios: []vh.Scenario{
			patterns(v4, 0, 2, full, false), patterns(v4, 1, 4, full, false), patterns(v4, 2, 6, three, false), patterns(v4, 3, 8, two, false),
			patterns(v6, 4, 3, full, false), patterns(v6, 5, 5, two, false),
			patterns(v4, 6, 5, full, true), patterns(v4, 7, 8, three, true), patterns(v6, 8, 6, three, true),
			bounds(v4, 9), bounds(v6, 10),
			histories("history-v4", v4, 11, 3, 5, false), histories("history-v6", v6, 12, 3, 4, false),
			histories("history-config-v4", v4, 13, 3, 5, true), histories("history-config-v6", v6, 14, 2, 5, true),
			histories("history-any-v4", netip.IPv4Unspecified(), 15, 2, 5, false),
			{Name: "plain", Run: plain},
		}})
}
