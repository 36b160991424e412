package main

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type node struct {
	l, r *node
	k    int
}

func (n *node) put(k int) *node {
	if n == nil {
		return &node{k: k}
	}
	if k < n.k {
		n.l = n.l.put(k)
	} else {
		n.r = n.r.put(k)
	}
	return n
}
func (n *node) walk(f func(int)) {
	if n != nil {
		n.l.walk(f)
		f(n.k)
		n.r.walk(f)
	}
}
func div(a, b int) (r int, err error) {
	defer func() {
		if x := recover(); x != nil {
			err = errors.New(fmt.Sprint("recovered: ", x))
		}
	}()
	return a / b, nil
}
func main() {
	switch os.Args[1] {
	case "pipe":
		c := make(chan int)
		d := make(chan string, 2)
		go func() {
			for i := 0; i < 10; i++ {
				c <- i * i
			}
			close(c)
		}()
		go func() {
			s := 0
			for x := range c {
				s += x
				d <- fmt.Sprintf("%d:%5.2f", s, float64(s)/3)
			}
			close(d)
		}()
		for x := range d {
			fmt.Println(x)
		}
	case "tree":
		var t *node
		for i := 0; i < 50; i++ {
			t = t.put(i * 37 % 101)
		}
		var b strings.Builder
		t.walk(func(k int) { fmt.Fprint(&b, k, " ") })
		fmt.Println(b.String())
	case "map":
		m := map[string]int{}
		for _, w := range strings.Fields("the cat the dog a cat b") {
			m[w]++
		}
		k := []string{}
		for w := range m {
			k = append(k, w)
		}
		sort.Strings(k)
		for _, w := range k {
			fmt.Printf("%-5s %d %v\n", w, m[w], []byte(w))
		}
	case "panic":
		fmt.Println(div(7, 0))
		fmt.Println(div(7, 2))
		var p *node
		fmt.Println(p.k)
	case "big":
		f := big.NewInt(1)
		for i := int64(1); i < 40; i++ {
			f.Mul(f, big.NewInt(i))
		}
		q, r := new(big.Int).DivMod(f, big.NewInt(1000000007), new(big.Int))
		fmt.Println(f, q.BitLen(), r, new(big.Int).Exp(big.NewInt(3), big.NewInt(200), big.NewInt(999999937)))
	case "num":
		for _, s := range []string{"1e400", "-0", "0.1", "4.9e-324", "123456789.123456789", "NaN", "0x1p-3", "99999999999999999999", "-129"} {
			x, e := strconv.ParseFloat(s, 64)
			i, d := strconv.ParseInt(s, 0, 16)
			fmt.Println(s, x, float32(x), e != nil, i, d != nil, math.Float64bits(x), strconv.FormatFloat(x, 'e', -1, 32))
		}
		var a int8 = -128
		var u uint16 = 65535
		for i := 0; i < 20; i += 3 {
			fmt.Print(a>>i, " ", u<<i, " ", uint32(1)<<(i*2), " ", int64(-5)>>i, " ", int8(int(u)*i), " ", a/int8(i+1), " ", bits(i), "; ")
		}
		fmt.Println(complex(1, 2)*complex(-3, 0.5), math.Sqrt(2), math.Floor(-1.5), math.Copysign(3, -0.0), math.Mod(7, -3), math.Inf(-1))
	case "iface":
		for i, x := range []any{1, "s", 2.5, []int{1, 2}, nil, errors.New("e"), struct{ a, b int }{3, 4}, func() {}} {
			switch v := x.(type) {
			case int, float64:
				fmt.Printf("%d num %v\n", i, v)
			case string:
				fmt.Printf("%d str %q %x\n", i, v, v)
			case error:
				fmt.Printf("%d err %v\n", i, v)
			case nil:
				fmt.Printf("%d nil\n", i)
			default:
				fmt.Printf("%d %T\n", i, v)
			}
		}
		for i := range 4 {
			defer func() { fmt.Println("deferred", i) }()
		}
	case "sync":
		var mu sync.Mutex
		var wg sync.WaitGroup
		n := 0
		for i := range 8 {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for range 5 {
					mu.Lock()
					n += i
					mu.Unlock()
					time.Sleep(50)
				}
			}()
		}
		wg.Wait()
		select {
		case <-time.After(200):
			fmt.Println("after", n)
		}
	case "deep":
		var f func(n int, s []byte) int
		f = func(n int, s []byte) int {
			var pad [64]byte
			pad[n%64] = byte(n)
			if n == 0 {
				return len(s)
			}
			return f(n-1, append(s, pad[n%64])) + int(pad[n%64])
		}
		fmt.Println(f(3000, nil))
	case "gc":
		var keep [][]byte
		for i := 0; i < 400; i++ {
			x := make([]byte, 20000)
			x[i] = byte(i)
			if i%50 == 0 {
				keep = append(keep, x)
			}
		}
		fmt.Println(len(keep), keep[3][150])
	}
}

func bits(i int) int { return strings.Count(strconv.FormatInt(int64(i)*0x5555, 2), "1") }
