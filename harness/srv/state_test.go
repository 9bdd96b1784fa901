// What the server tells its clients of its state: volume, newest song, pause changes.
package srv

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/playback"
	"github.com/LogicalOverflow/music-sync/schedule"
	"github.com/LogicalOverflow/music-sync/verifrt/vcli"
	"github.com/LogicalOverflow/music-sync/verifrt/vcmd"
	"github.com/LogicalOverflow/music-sync/verifrt/vh"
	"github.com/LogicalOverflow/music-sync/verifrt/vhook"
	"github.com/LogicalOverflow/music-sync/verifrt/vnet"
)

func quiet() {
	for i := 0; i < 3; i++ {
		vh.Settle()
	}
}

func num(v float64) string { return strconv.FormatFloat(v, 'g', -1, 64) }

// volume is a scenario about volume commands.
func volume(n int, r *rand.Rand) vh.J {
	vnet.Reset()
	vh.Perturb(r)
	playback.AudioDir = filepath.Join(os.Getenv("VH_DIR"), "none")
	schedule.StreamStartDelay = time.Hour
	l := &log{}
	sender, err := comm.StartServer("srv")
	if err != nil {
		panic(err)
	}
	type client struct {
		k    *vcli.Client
		c    int
		gone int32
		slow bool
	}
	var cs []*client
	join := func() {
		if len(cs) >= 12 {
			return
		}
		c := &client{c: len(cs) + 1}
		c.slow = r.Intn(4) == 0
		room := 1 << 20
		if c.slow {
			room = 1 + r.Intn(60)
		}
		conn, err := vnet.Connect("srv", room, 1<<20)
		if err != nil {
			panic(err)
		}
		cs = append(cs, c)
		l.add(vh.J{"k": "sub", "c": c.c})
		c.k = vcli.Attach(conn, fmt.Sprint(c.c))
		c.k.Watch(func(m interface{}) {
			if v, ok := m.(*comm.SetVolumeRequest); ok {
				k := "told"
				if atomic.LoadInt32(&c.gone) != 0 {
					k = "late"
				}
				l.add(vh.J{"k": k, "c": c.c, "v": num(v.Volume)})
			}
		})
		for i := 0; i < 1+r.Intn(2); i++ {
			c.k.Subscribe(comm.Channel(r.Intn(2)))
		}
	}
	if r.Intn(2) == 0 {
		for i := 0; i < 1+r.Intn(2); i++ {
			join()
		}
		if r.Intn(2) == 0 {
			vh.Settle()
		}
	}
	schedule.Server(sender)
	if r.Intn(2) == 0 {
		quiet()
	}
	pick := func(r *rand.Rand) string {
		switch r.Intn(6) {
		case 0:
			return []string{"x", "", "1,5", "0.5x", "--1", "1e", "0.3.1", "ten"}[r.Intn(8)]
		case 1:
			return []string{"NaN", "Inf", "-Inf", "1e300", "-1", "0", "0x1p-2", "1e999", "-1e999", "1_0", "4.9e-324"}[r.Intn(11)]
		}
		return num(float64(r.Intn(200)) / 100)
	}
	for round := 0; round < 2+r.Intn(4); round++ {
		var wg sync.WaitGroup
		for o := 1; o <= 1+r.Intn(3); o++ {
			wg.Add(1)
			go func(o int, r *rand.Rand) {
				defer wg.Done()
				for i := 0; i < 1+r.Intn(3); i++ {
					args := []string{pick(r)}
					switch r.Intn(8) {
					case 0:
						args = append(args, pick(r))
					case 1:
						args = nil
					}
					v := "?"
					if len(args) > 0 {
						if x, err := strconv.ParseFloat(args[0], 64); err == nil {
							v = num(x)
						}
					}
					l.add(vh.J{"k": "begin", "k2": o, "v": v})
					_, ok := vcmd.Exec("volume", args...)
					l.add(vh.J{"k": "end", "k2": o, "ok": ok})
					if r.Intn(2) == 0 {
						time.Sleep(time.Duration(r.Intn(300)))
					}
				}
			}(o, rand.New(rand.NewSource(r.Int63())))
		}
		for i := 0; i < r.Intn(4); i++ {
			time.Sleep(time.Duration(r.Intn(200)))
			switch k := r.Intn(5); {
			case k < 3 || len(cs) == 0:
				join()
			case k == 3:
				c := cs[r.Intn(len(cs))]
				c.k.Subscribe(comm.Channel(r.Intn(2)))
			default:
				c := cs[r.Intn(len(cs))]
				l.add(vh.J{"k": "leave", "c": c.c})
				atomic.StoreInt32(&c.gone, 1)
				c.k.Leave()
			}
		}
		for _, c := range cs {
			if c.slow && r.Intn(2) == 0 {
				c.k.Stall()
			}
		}
		time.Sleep(time.Duration(r.Intn(2000000)))
		for _, c := range cs {
			c.k.Resume()
		}
		wg.Wait()
		quiet()
		l.add(vh.J{"k": "calm"})
	}
	return vh.J{"init": "0.1", "ev": l.ev}
}

// info is a scenario about songs and pause changes and those who join meanwhile.
func info(n int, r *rand.Rand) vh.J {
	vnet.Reset()
	vh.Perturb(r)
	dir := filepath.Join(os.Getenv("VH_DIR"), fmt.Sprintf("s%d", n))
	os.MkdirAll(dir, 0o755)
	defer os.RemoveAll(dir)
	playback.AudioDir = dir
	songs := make([]song, 1+r.Intn(3))
	for i := range songs {
		songs[i] = song{Name: fmt.Sprintf("f%d.mp3", i+1), Len: 1 + r.Intn(5000), Ok: true}
		writeSong(dir, i+1, &songs[i], r)
	}
	schedule.StreamStartDelay = time.Hour
	l := &log{}
	sender, err := comm.StartServer("srv")
	if err != nil {
		panic(err)
	}
	lens := map[int]int{}
	var lmu sync.Mutex
	told := func(m interface{}) vh.J {
		switch x := m.(type) {
		case *comm.SetVolumeRequest:
			return vh.J{"k": "toldvol", "v": num(x.Volume)}
		case *comm.NewSongInfo:
			at := int(x.FirstSampleOfSongIndex)
			for i := range songs {
				if songs[i].Name == x.SongFileName {
					lmu.Lock()
					defer lmu.Unlock()
					return vh.J{"k": "toldsong", "at": at, "f": i + 1, "same": songs[i].described(x) && x.SongLength == int64(lens[at])}
				}
			}
			return vh.J{"k": "toldsong", "at": at, "f": 0, "same": false}
		case *comm.PauseInfo:
			return vh.J{"k": "toldtog", "at": int(x.ToggleSampleIndex), "p": x.Playing}
		}
		return nil
	}
	var cs []*vcli.Client
	join := func() {
		if len(cs) >= 15 {
			return
		}
		c := len(cs) + 1
		room := 1 << 20
		if r.Intn(3) == 0 {
			room = 1 + r.Intn(100)
		}
		conn, err := vnet.Connect("srv", room, 1<<20)
		if err != nil {
			panic(err)
		}
		l.add(vh.J{"k": "join", "c": c})
		k := vcli.Attach(conn, fmt.Sprint(c))
		cs = append(cs, k)
		k.Watch(func(m interface{}) {
			if j := told(m); j != nil {
				j["c"] = c
				l.add(j)
			}
		})
		if r.Intn(3) == 0 {
			k.Subscribe(comm.Channel_AUDIO)
		}
		k.Subscribe(comm.Channel_META)
		if r.Intn(5) == 0 {
			k.Subscribe(comm.Channel_META)
		}
	}
	probe := func() {
		k, err := vcli.Join("srv", "probe", 1<<20)
		if err != nil {
			panic(err)
		}
		audio := r.Intn(4) == 0
		if audio {
			k.Subscribe(comm.Channel_AUDIO)
		} else {
			k.Subscribe(comm.Channel_META)
		}
		quiet()
		j := vh.J{"k": "probe", "other": 0, "same": true}
		ss, ts, vs := []vh.J{}, []vh.J{}, []string{}
		rs, _ := k.Recs()
		for _, m := range rs {
			x := told(m.M)
			if x == nil {
				j["other"] = 1
				continue
			}
			switch x["k"] {
			case "toldvol":
				vs = append(vs, x["v"].(string))
			case "toldsong":
				ss = append(ss, vh.J{"at": x["at"], "f": x["f"]})
				if x["same"] != true {
					j["same"] = false
				}
			default:
				ts = append(ts, vh.J{"at": x["at"], "p": x["p"]})
			}
		}
		if audio {
			j["k"] = "audio"
		}
		j["songs"], j["togs"], j["vols"] = ss, ts, vs
		l.add(j)
		k.Leave()
	}
	if r.Intn(2) == 0 {
		join()
		if r.Intn(2) == 0 {
			vh.Settle()
		}
	}
	schedule.Server(sender)
	quiet()
	if vhook.Song == nil || vhook.Toggle == nil {
		panic("the server sets no handlers on its playlist")
	}
	at, playing, first := 0, true, true
	var wg sync.WaitGroup
	type call func()
	step := func() (c call) {
		if first { // playback begins with a song
			first = false
			if r.Intn(2) == 0 {
				at = 0
			} else {
				at = r.Intn(5000)
			}
		} else {
			at += []int{1, 512, 512, 512 * (1 + r.Intn(9)), 1 + r.Intn(3000)}[r.Intn(5)]
		}
		wg.Add(1)
		if r.Intn(5) < map[string]int{"join": 2, "history": 1}[vh.Profile] {
			x, f, n := at, 1+r.Intn(len(songs)), r.Intn(9999)
			lmu.Lock()
			lens[x] = n
			lmu.Unlock()
			if r.Intn(4) == 0 { // and a change right at its start
				playing = !playing
				p := playing
				wg.Add(1)
				return func() {
					one := func() {
						defer wg.Done()
						l.add(vh.J{"k": "song", "at": x, "f": f})
						vhook.Song(uint64(x), songs[f-1].Name, int64(n))
					}
					two := func() {
						defer wg.Done()
						l.add(vh.J{"k": "tog", "at": x, "p": p})
						vhook.Toggle(p, uint64(x))
					}
					if x%2 == 0 {
						go one()
						go two()
					} else {
						go two()
						go one()
					}
				}
			}
			return func() {
				defer wg.Done()
				l.add(vh.J{"k": "song", "at": x, "f": f})
				vhook.Song(uint64(x), songs[f-1].Name, int64(n))
			}
		}
		playing = !playing
		x, p := at, playing
		return func() {
			defer wg.Done()
			l.add(vh.J{"k": "tog", "at": x, "p": p})
			vhook.Toggle(p, uint64(x))
		}
	}
	steps, joins := 3+r.Intn(6), 2
	if vh.Profile == "history" {
		steps, joins = 8+r.Intn(10), 0
	}
	for k := 0; k < steps; k++ {
		var calls []call
		for i := 0; i < 1+r.Intn(4); i++ {
			calls = append(calls, step())
		}
		r.Shuffle(len(calls), func(i, j int) {
			if r.Intn(2) == 0 {
				calls[i], calls[j] = calls[j], calls[i]
			}
		})
		nj := 0
		if joins > 0 {
			nj = r.Intn(joins + 1)
		} else if r.Intn(4) == 0 {
			nj = 1
		}
		for i := 0; i < nj; i++ {
			if r.Intn(2) == 0 {
				time.Sleep(time.Duration(r.Intn(150)))
			}
			join()
		}
		mode := r.Intn(3)
		for _, c := range calls {
			switch mode {
			case 0:
				go c()
			case 1:
				c()
			default:
				go c()
				time.Sleep(time.Duration(r.Intn(200)))
			}
		}
		if r.Intn(2) == 0 && vh.Profile == "join" {
			time.Sleep(time.Duration(r.Intn(400)))
			join()
		}
		wg.Wait()
		quiet()
		if r.Intn(5) == 0 {
			v := num(float64(r.Intn(100)) / 50)
			if _, ok := vcmd.Exec("volume", v); ok {
				l.add(vh.J{"k": "vol", "v": v})
			}
			quiet()
		}
		l.add(vh.J{"k": "calm"})
		if r.Intn(2) == 0 {
			probe()
		}
	}
	return vh.J{"vol": "0.1", "ev": l.ev}
}
