// Command battery runs the contracts of the verified functions as run-time
// oracles on concrete inputs against /repo's current tree.  It is the replay
// stage of the deductive checks (it looks for a concrete failing input when an
// obligation fails) and the bounded stand-in for the few functions outside the
// verifier's reach.  Nothing it runs is counted as proved.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math"
	"math/big"
	"math/cmplx"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
)

type Failure struct {
	Case   string `json:"case"`
	Detail string `json:"detail"`
}

// T collects the outcome of one property's run.
type T struct {
	rng      *rand.Rand
	thorough bool
	Evals    int
	Distinct map[string]bool
	Fails    []Failure
	cur      string
	deadline time.Time
	mu       sync.Mutex
	started  time.Time
	startCPU time.Duration
	longest  time.Duration
	report   func()
}

// hung is how long one case may take before it counts as not returning. The longest case of the batteries takes about 0.1 s.
const hung = 40 * time.Second

func cpu() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// watch ends the run with a failure when a case does not return: it has taken hung of both wall-clock and processor time.
// A loop that never ends (or a call that never stops allocating) would otherwise take the findings of every other case with it.
func (t *T) watch() {
	for {
		time.Sleep(time.Second)
		t.mu.Lock()
		if !t.started.IsZero() {
			var m runtime.MemStats
			d := time.Since(t.started)
			if d > 5*time.Second {
				runtime.ReadMemStats(&m)
			}
			if d > hung && cpu()-t.startCPU > hung || m.HeapAlloc > 12<<30 {
				t.fail("the code under test had not returned after %v (%d MB in use); the longest other case took %v", d.Round(time.Second), m.HeapAlloc>>20, t.longest.Round(time.Millisecond))
				t.report()
				os.Exit(1)
			}
		}
		t.mu.Unlock()
	}
}

func (t *T) run(name string, f func()) {
	if time.Now().After(t.deadline) {
		return
	}
	t.mu.Lock()
	t.cur = name
	t.Evals++
	t.Distinct[name] = true
	t.started, t.startCPU = time.Now(), cpu()
	t.mu.Unlock()
	fmt.Fprintln(os.Stderr, "case", name)
	defer func() {
		t.mu.Lock()
		defer t.mu.Unlock()
		if d := time.Since(t.started); d > t.longest {
			t.longest = d
		}
		t.started, t.startCPU = time.Now(), cpu()
		if r := recover(); r != nil {
			st := strings.Split(string(debug.Stack()), "\n")
			loc := ""
			for _, l := range st {
				if strings.Contains(l, "/repo/") || strings.Contains(l, "/mk-lr") {
					loc = strings.TrimSpace(l)
					break
				}
			}
			t.fail("unexpected panic: %v at %s", r, loc)
		}
	}()
	f()
}

func (t *T) fail(format string, a ...interface{}) {
	if len(t.Fails) < 50 {
		t.Fails = append(t.Fails, Failure{t.cur, fmt.Sprintf(format, a...)})
	}
}

func (t *T) check(ok bool, format string, a ...interface{}) bool {
	if !ok {
		t.fail(format, a...)
	}
	return ok
}

// panics reports whether f panics.
func panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			p = true
		}
	}()
	f()
	return
}

// ---- parameter sets -------------------------------------------------------

type PSet struct {
	Name     string
	LogN     int
	LogSlots int
	LogQ     []int
	LogP     []int
	Scale    float64
}

func rep(n, v int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = v
	}
	return r
}

var psets = []PSet{
	{"N32-q5-p2", 5, 4, append([]int{55}, rep(4, 40)...), rep(2, 55), 1 << 40},
	{"N32-q6-p4", 5, 4, append([]int{55}, rep(5, 40)...), rep(4, 55), 1 << 40},
	{"N64-q8-p6-sparse", 6, 3, append([]int{55}, rep(7, 42)...), rep(6, 55), 1 << 42},
	{"N32-q4-p3", 5, 4, append([]int{50}, rep(3, 36)...), rep(3, 52), 1 << 36},
	{"N32-q7-p5", 5, 4, append([]int{55}, rep(6, 40)...), rep(5, 55), 1 << 40},
}

var rlweSets = []struct {
	Name  string
	LogN  int
	LogQ  []int
	LogP  []int
	Gamma int
}{
	{"g1", 5, []int{50, 40, 40, 40, 40}, rep(2, 52), 1},
	{"g2", 5, []int{50, 40, 40, 40, 40, 40, 40}, rep(4, 50), 2},
	{"g2odd", 5, []int{50, 45, 45, 45}, rep(3, 52), 2},
	{"g3", 5, []int{50, 45, 45, 45, 45}, rep(3, 50), 3},
	{"g2p5", 5, []int{55, 40, 40, 40, 40, 40}, rep(5, 50), 2},
	{"g2a3", 6, []int{55, 40, 40, 40, 40, 40, 40, 40}, rep(6, 45), 2},
}

func mkckksParams(ps PSet) mkckks.Parameters {
	p, err := ckks.NewParametersFromLiteral(ckks.ParametersLiteral{
		LogN: ps.LogN, LogSlots: ps.LogSlots, LogQ: ps.LogQ, LogP: ps.LogP,
		Scale: ps.Scale, Sigma: rlwe.DefaultSigma})
	if err != nil {
		panic(err)
	}
	return mkckks.NewParameters(p)
}

func mkrlweParams(i int) mkrlwe.Parameters {
	s := rlweSets[i]
	p, err := rlwe.NewParametersFromLiteral(rlwe.ParametersLiteral{LogN: s.LogN, LogQ: s.LogQ, LogP: s.LogP, Sigma: rlwe.DefaultSigma})
	if err != nil {
		panic(err)
	}
	return mkrlwe.NewParameters(p, s.Gamma)
}

// ---- context ----------------------------------------------------------------

type Ctx struct {
	ps     PSet
	params mkckks.Parameters
	kgen   *mkrlwe.KeyGenerator
	ids    []string
	sks    *mkrlwe.SecretKeySet
	pks    *mkrlwe.PublicKeySet
	rlks   *mkrlwe.RelinearizationKeySet
	rtks   *mkrlwe.RotationKeySet
	cjks   *mkrlwe.ConjugationKeySet
	enc    *mkckks.Encryptor
	dec    *mkckks.Decryptor
	ev     *mkckks.Evaluator
	extra  []int
}

var allIDs = []string{"user0", "a", "", "00", "π-party", "user00", "z9"}

func newCtx(ps PSet, nIDs int) *Ctx {
	c := &Ctx{ps: ps, params: mkckksParams(ps)}
	half := c.params.N() / 2
	c.extra = []int{3, half - 1}
	for _, r := range c.extra {
		c.params.AddCRS(r)
	}
	c.kgen = mkckks.NewKeyGenerator(c.params)
	c.ids = append([]string{}, allIDs...)
	for len(c.ids) < nIDs {
		c.ids = append(c.ids, fmt.Sprintf("party%d", len(c.ids)))
	}
	c.ids = c.ids[:nIDs]
	c.sks = mkrlwe.NewSecretKeySet()
	c.pks = mkrlwe.NewPublicKeyKeySet()
	c.rlks = mkrlwe.NewRelinearizationKeyKeySet(c.params.Parameters)
	c.rtks = mkrlwe.NewRotationKeySet()
	c.cjks = mkrlwe.NewConjugationKeySet()
	for _, id := range c.ids {
		sk, pk := c.kgen.GenKeyPair(id)
		r := c.kgen.GenSecretKey(id)
		c.sks.AddSecretKey(sk)
		c.pks.AddPublicKey(pk)
		c.rlks.AddRelinearizationKey(c.kgen.GenRelinearizationKey(sk, r))
		c.kgen.GenDefaultRotationKeys(sk, c.rtks)
		for _, k := range c.extra {
			c.rtks.AddRotationKey(c.kgen.GenRotationKey(k, sk))
		}
		c.cjks.AddConjugationKey(c.kgen.GenConjugationKey(sk))
	}
	c.enc = mkckks.NewEncryptor(c.params)
	c.dec = mkckks.NewDecryptor(c.params)
	c.ev = mkckks.NewEvaluator(c.params)
	return c
}

func idset(ids ...string) *mkrlwe.IDSet {
	s := mkrlwe.NewIDSet()
	for _, id := range ids {
		s.Add(id)
	}
	return s
}

func (c *Ctx) msg(t *T) *mkckks.Message {
	m := mkckks.NewMessage(c.params)
	for i := range m.Value {
		m.Value[i] = complex(t.rng.Float64()*2-1, t.rng.Float64()*2-1)
	}
	return m
}

// fresh returns a ciphertext whose parties are ids (all of them contribute a
// share), at the given level, and its message.
func (c *Ctx) fresh(t *T, level int, ids ...string) (*mkckks.Ciphertext, []complex128) {
	var ct *mkckks.Ciphertext
	want := make([]complex128, c.params.Slots())
	for _, id := range ids {
		m := c.msg(t)
		for i := range want {
			want[i] += m.Value[i]
		}
		e := c.enc.EncryptMsgNew(m, c.pks.GetPublicKey(id))
		if ct == nil {
			ct = e
		} else {
			ct = addRef(c, ct, e)
		}
	}
	for id := range ct.Value {
		ct.Value[id].Coeffs = ct.Value[id].Coeffs[:level+1]
	}
	return ct, want
}

// addRef adds same-level same-scale ciphertexts without the evaluator.
func addRef(c *Ctx, a, b *mkckks.Ciphertext) *mkckks.Ciphertext {
	rq := c.params.RingQ()
	out := &mkckks.Ciphertext{Ciphertext: &mkrlwe.Ciphertext{Value: map[string]*ring.Poly{}}, Scale: a.Scale}
	for id, p := range a.Value {
		out.Value[id] = p.CopyNew()
	}
	for id, p := range b.Value {
		if q, ok := out.Value[id]; ok {
			rq.AddLvl(q.Level(), q, p, q)
		} else {
			out.Value[id] = p.CopyNew()
		}
	}
	return out
}

// phase returns ct_0 + sum ct_id s_id as a coefficient-domain polynomial,
// computed independently of the code under test.
func phase(ringQ *ring.Ring, ct *mkrlwe.Ciphertext, sks *mkrlwe.SecretKeySet) *ring.Poly {
	lvl := len(ct.Value["0"].Coeffs) - 1
	acc := ct.Value["0"].CopyNew()
	if !acc.IsNTT {
		ringQ.NTTLvl(lvl, acc, acc)
	}
	for id, p := range ct.Value {
		if id == "0" {
			continue
		}
		q := p.CopyNew()
		if !p.IsNTT {
			ringQ.NTTLvl(lvl, q, q)
		}
		ringQ.MulCoeffsMontgomeryAndAddLvl(lvl, q, sks.Value[id].Value.Q, acc)
	}
	ringQ.InvNTTLvl(lvl, acc, acc)
	return acc
}

func (c *Ctx) decode(p *ring.Poly, scale float64) []complex128 {
	cp, _ := ckks.NewParameters(c.params.Parameters.Parameters, c.params.LogSlots(), c.params.Scale())
	enc := ckks.NewEncoder(cp)
	pt := ckks.NewPlaintext(cp, len(p.Coeffs)-1, scale)
	for i := range p.Coeffs {
		copy(pt.Value.Coeffs[i], p.Coeffs[i])
	}
	pt.Value.IsNTT = false
	return enc.Decode(pt, c.params.LogSlots())
}

// refDecrypt decrypts independently of the code under test.
func (c *Ctx) refDecrypt(ct *mkckks.Ciphertext) []complex128 {
	return c.decode(phase(c.params.RingQ(), ct.Ciphertext, c.sks), ct.Scale)
}

const tol = 1.0 / (1 << 14)

func maxErr(got, want []complex128) float64 {
	if len(got) != len(want) {
		return math.Inf(1)
	}
	var e float64
	for i := range got {
		d := cmplx.Abs(got[i] - want[i])
		if d > e || math.IsNaN(d) {
			e = d
		}
	}
	if math.IsNaN(e) {
		return math.Inf(1)
	}
	return e
}

func (t *T) close(what string, got, want []complex128, tl float64) bool {
	e := maxErr(got, want)
	return t.check(e <= tl, "%s: decrypted slots differ from the expected message by %.3g (allowed %.3g); got[0]=%v want[0]=%v", what, e, tl, at(got, 0), at(want, 0))
}

func at(v []complex128, i int) complex128 {
	if i < len(v) {
		return v[i]
	}
	return cmplx.NaN()
}

func (t *T) ids(what string, ct *mkrlwe.Ciphertext, want ...string) bool {
	w := map[string]bool{"0": true}
	for _, i := range want {
		w[i] = true
	}
	ok := len(w) == len(ct.Value)
	for id := range ct.Value {
		ok = ok && w[id]
	}
	return t.check(ok, "%s: components %v, want %v", what, keysOf(ct.Value), w)
}

func keysOf(m map[string]*ring.Poly) []string {
	var r []string
	for k := range m {
		r = append(r, fmt.Sprintf("%q", k))
	}
	sort.Strings(r)
	return r
}

// shape checks level of all components.
func (t *T) level(what string, ct *mkrlwe.Ciphertext, lvl int) bool {
	ok := true
	for id, p := range ct.Value {
		ok = t.check(len(p.Coeffs) == lvl+1, "%s: component %q at level %d, want %d", what, id, len(p.Coeffs)-1, lvl) && ok
	}
	return ok
}

func (t *T) scale(what string, got, want float64) bool {
	return t.check(math.Abs(got-want) <= 1e-9*math.Abs(want), "%s: scale %g, want %g", what, got, want)
}

func union(a, b []string) []string {
	m := map[string]bool{}
	var r []string
	for _, x := range append(append([]string{}, a...), b...) {
		if !m[x] {
			m[x] = true
			r = append(r, x)
		}
	}
	return r
}

// ---- deep hashing and sharing -------------------------------------------------

func deepHash(skip map[string]bool, xs ...interface{}) uint64 {
	h := fnv.New64a()
	seen := map[uintptr]bool{}
	for _, x := range xs {
		walk(h.Write, reflect.ValueOf(x), seen, skip)
	}
	return h.Sum64()
}

func w64(w func([]byte) (int, error), v uint64) {
	var b [8]byte
	for i := range b {
		b[i] = byte(v >> (8 * uint(i)))
	}
	w(b[:])
}

func walk(w func([]byte) (int, error), v reflect.Value, seen map[uintptr]bool, skip map[string]bool) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			w([]byte{0})
			return
		}
		if v.Type() == reflect.TypeOf((*ring.Ring)(nil)) {
			return
		}
		if seen[v.Pointer()] && v.Type() != reflect.TypeOf((*ring.Poly)(nil)) {
			w([]byte{9})
			return
		}
		seen[v.Pointer()] = true
		walk(w, v.Elem(), seen, skip)
	case reflect.Interface:
		if !v.IsNil() {
			walk(w, v.Elem(), seen, skip)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if skip[v.Type().Field(i).Name] {
				continue
			}
			walk(w, v.Field(i), seen, skip)
		}
	case reflect.Slice, reflect.Array:
		w64(w, uint64(v.Len()))
		for i := 0; i < v.Len(); i++ {
			walk(w, v.Index(i), seen, skip)
		}
	case reflect.Map:
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
		w64(w, uint64(len(keys)))
		for _, k := range keys {
			walk(w, k, seen, skip)
			walk(w, v.MapIndex(k), seen, skip)
		}
	case reflect.String:
		w64(w, uint64(v.Len()))
		w([]byte(v.String()))
	case reflect.Bool:
		if v.Bool() {
			w([]byte{1})
		} else {
			w([]byte{2})
		}
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int8, reflect.Int16:
		w64(w, uint64(v.Int()))
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint8, reflect.Uint16:
		w64(w, v.Uint())
	case reflect.Float64:
		w64(w, math.Float64bits(v.Float()))
	case reflect.Complex128:
		w64(w, math.Float64bits(real(v.Complex())))
		w64(w, math.Float64bits(imag(v.Complex())))
	}
}

// rows collects the addresses of all coefficient rows, maps and polynomials reachable from x.
func storage(xs ...interface{}) map[uintptr]string {
	out := map[uintptr]string{}
	seen := map[uintptr]bool{}
	for _, x := range xs {
		collect(reflect.ValueOf(x), "", out, seen)
	}
	return out
}

func collect(v reflect.Value, path string, out map[uintptr]string, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || v.Type() == reflect.TypeOf((*ring.Ring)(nil)) {
			return
		}
		if seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		if v.Type() == reflect.TypeOf((*ring.Poly)(nil)) {
			out[v.Pointer()] = path
		}
		collect(v.Elem(), path, out, seen)
	case reflect.Interface:
		if !v.IsNil() {
			collect(v.Elem(), path, out, seen)
		}
	case reflect.Struct:
		tn := v.Type().String()
		if strings.HasPrefix(tn, "big.") || tn == "rlwe.Parameters" || tn == "ring.Ring" {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			collect(v.Field(i), path+"."+v.Type().Field(i).Name, out, seen)
		}
	case reflect.Slice:
		if v.Type() == reflect.TypeOf([]uint64(nil)) {
			if v.Len() > 0 && strings.HasSuffix(strings.TrimRight(path, "[]"), "Coeffs") {
				out[v.Index(0).Addr().Pointer()] = path
			}
			return
		}
		if v.Type() == reflect.TypeOf([][]uint64(nil)) && v.Len() > 0 {
			out[v.Index(0).Addr().Pointer()] = path
		}
		for i := 0; i < v.Len(); i++ {
			collect(v.Index(i), path+"[]", out, seen)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			collect(v.Index(i), path+"[]", out, seen)
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		out[v.Pointer()] = path
		for _, k := range v.MapKeys() {
			collect(v.MapIndex(k), path+"["+fmt.Sprint(k)+"]", out, seen)
		}
	}
}

func (t *T) disjoint(what string, a, b map[uintptr]string) bool {
	for p, pa := range a {
		if pb, ok := b[p]; ok {
			t.fail("%s: storage shared: %s and %s", what, pa, pb)
			return false
		}
	}
	return true
}

// ---- polynomial helpers -------------------------------------------------------

// centered returns the coefficients of a coefficient-domain poly as centered big ints modulo prod(moduli[:lvl+1]).
func centered(r *ring.Ring, p *ring.Poly, lvl int) []*big.Int {
	Q := big.NewInt(1)
	for i := 0; i <= lvl; i++ {
		Q.Mul(Q, new(big.Int).SetUint64(r.Modulus[i]))
	}
	half := new(big.Int).Rsh(Q, 1)
	out := make([]*big.Int, r.N)
	type crt struct{ m, inv *big.Int }
	var cs []crt
	for i := 0; i <= lvl; i++ {
		qi := new(big.Int).SetUint64(r.Modulus[i])
		m := new(big.Int).Div(Q, qi)
		inv := new(big.Int).ModInverse(new(big.Int).Mod(m, qi), qi)
		cs = append(cs, crt{m, inv})
	}
	for w := 0; w < r.N; w++ {
		acc := new(big.Int)
		for i := 0; i <= lvl; i++ {
			qi := new(big.Int).SetUint64(r.Modulus[i])
			x := new(big.Int).SetUint64(p.Coeffs[i][w])
			x.Mod(x, qi)
			x.Mul(x, cs[i].inv)
			x.Mod(x, qi)
			x.Mul(x, cs[i].m)
			acc.Add(acc, x)
		}
		acc.Mod(acc, Q)
		if acc.Cmp(half) > 0 {
			acc.Sub(acc, Q)
		}
		out[w] = acc
	}
	return out
}

func maxBits(v []*big.Int) int {
	m := 0
	for _, x := range v {
		if x.BitLen() > m {
			m = x.BitLen()
		}
	}
	return m
}

func isZero(v []*big.Int) bool {
	for _, x := range v {
		if x.Sign() != 0 {
			return false
		}
	}
	return true
}

// ---- main ----------------------------------------------------------------------

var props = map[string]func(*T){}

func main() {
	prop := flag.String("prop", "", "property id")
	seed := flag.Int64("seed", 1, "seed")
	tier := flag.String("tier", "quick", "quick or thorough")
	budget := flag.Duration("budget", 120*time.Second, "time budget")
	flag.Parse()
	f, ok := props[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	t := &T{rng: rand.New(rand.NewSource(*seed)), thorough: *tier == "thorough", Distinct: map[string]bool{}, deadline: time.Now().Add(*budget)}
	t.report = func() {
		var names []string
		for n := range t.Distinct {
			names = append(names, n)
		}
		sort.Strings(names)
		samples := names
		if len(samples) > 8 {
			step := len(names) / 8
			samples = nil
			for i := 0; i < len(names); i += step {
				samples = append(samples, names[i])
			}
		}
		b, _ := json.MarshalIndent(map[string]interface{}{
			"property": *prop, "seed": *seed, "tier": *tier,
			"evaluations": t.Evals, "longest_ms": t.longest.Milliseconds(), "distinct": len(t.Distinct), "samples": samples, "failures": t.Fails}, "", " ")
		fmt.Println(string(b))
	}
	t.cur, t.started, t.startCPU = "setting up", time.Now(), cpu()
	go t.watch()
	func() {
		defer func() {
			if r := recover(); r != nil {
				t.fail("unexpected panic while setting up: %v\n%s", r, debug.Stack())
			}
		}()
		f(t)
	}()
	t.mu.Lock()
	t.report()
	if len(t.Fails) > 0 {
		os.Exit(1)
	}
}
