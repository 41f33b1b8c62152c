package ext

import "context"

// ZRedisRace changes the groups of connections concurrently, also while one ends.
func ZRedisRace() {
	r := &vRedis{sets: map[string]map[string]bool{}}
	m, err := newRedisHubLifetimeManager(context.Background(), vLog{}, r.client())
	vAssert(err == nil, "no lifetime manager")
	vCalm(true)
	vWait()
	conns := []*vHubConn{{id: "a1"}, {id: "a2"}}
	for _, c := range conns {
		m.OnConnected(c)
	}
	before := vPick("before", 2) == 1
	if before {
		m.AddToGroup("g", "a1")
		m.AddToGroup("g", "a2")
	}
	vWait()
	vCalm(false)
	groups := []string{"g", "h"}
	removed := [2]bool{} // groups the first connection might have been removed from
	member := [2][2]bool{{before, false}, {before, false}}
	up := true
	calls := vParam("calls")
	var fs []func()
	for k := 0; k < calls; k++ {
		g := vPickN("group", k, 2)
		i := 0
		switch vPickN("call", k, 5) {
		case 0:
			fs = append(fs, func() { m.AddToGroup(groups[g], conns[i].id) })
			member[i][g] = true
		case 1:
			fs = append(fs, func() { m.RemoveFromGroup(groups[g], conns[i].id) })
			removed[g] = true
		case 2:
			i = 1
			fs = append(fs, func() { m.AddToGroup(groups[g], conns[i].id) })
			member[i][g] = true
		case 3:
			vAssume(up)
			up = false
			fs = append(fs, func() { m.OnDisconnected(conns[0]) })
		case 4:
			fs = append(fs, func() { m.InvokeGroup(groups[g], "early", nil) })
		}
	}
	for _, f := range fs {
		go f()
	}
	vWait()
	vCalm(true)
	for _, c := range conns {
		c.mx.Lock()
		c.sent = nil
		c.mx.Unlock()
	}
	for g := range groups {
		m.InvokeGroup(groups[g], "late", nil)
		vWait()
		for i, c := range conns {
			c.mx.Lock()
			n := 0
			for _, s := range c.sent {
				if s.target == "late" {
					n++
				}
			}
			c.sent = nil
			c.mx.Unlock()
			switch {
			case i == 0 && !up:
				vAssert(n == 0, "a connection which has ended gets messages")
			case i == 1 || !removed[g]:
				vAssert(n == 1 == member[i][g] && n <= 1, "a connection which was added to a group is not reached once")
			default:
				vAssert(n <= 1, "a connection gets a message twice")
			}
		}
	}
	if up {
		vReach("up")
	} else {
		m.OnDisconnected(conns[0])
		vReach("down")
	}
	vReach("race-end")
	vDone()
}
