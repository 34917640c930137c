// Package sim drives a complete real node core (ledger, virtual machine, verifier, unreceived
// pool, consensus) deterministically: no background flusher, no wall clock, no network.
package sim

import (
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/big"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"time"
	"unsafe"

	"github.com/syndtr/goleveldb/leveldb"

	"github.com/vitelabs/go-vite/v2/common/config"
	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/common/upgrade"
	"github.com/vitelabs/go-vite/v2/crypto/ed25519"
	"github.com/vitelabs/go-vite/v2/interfaces"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/ledger/chain"
	"github.com/vitelabs/go-vite/v2/ledger/consensus"
	"github.com/vitelabs/go-vite/v2/ledger/generator"
	"github.com/vitelabs/go-vite/v2/ledger/onroad"
	"github.com/vitelabs/go-vite/v2/ledger/pool/lock"
	"github.com/vitelabs/go-vite/v2/ledger/verifier"
	"github.com/vitelabs/go-vite/v2/log15"
	"github.com/vitelabs/go-vite/v2/net"
	"github.com/vitelabs/go-vite/v2/producer/producerevent"
	"github.com/vitelabs/go-vite/v2/vm"
	"github.com/vitelabs/go-vite/v2/vm/util"
)

var Vite = ledger.ViteTokenId

type Key struct {
	Priv ed25519.PrivateKey
	Pub  ed25519.PublicKey
	Addr types.Address
}

func (k *Key) Sign(data []byte) ([]byte, []byte, error) {
	return ed25519.Sign(k.Priv, data), k.Pub, nil
}
func (k *Key) sign(data []byte) (signedData []byte, pub ed25519.PublicKey, err error) {
	return ed25519.Sign(k.Priv, data), k.Pub, nil
}

func MakeKey(label string) *Key {
	d := sha256.Sum256([]byte(label))
	addr, priv, err := types.CreateAddressWithDeterministic(d)
	if err != nil {
		panic(err)
	}
	return &Key{Priv: priv, Pub: ed25519.PublicKey(priv.PubByte()), Addr: addr}
}

// World is what all nodes share: the genesis and the keys.
type World struct {
	Users   []*Key
	SBPs    []*Key
	ByAddr  map[types.Address]*Key
	Genesis *config.Genesis
	Root    *Key                // staked for everybody, and may cancel that
	Stake   *big.Int            // for each
	Tokens  []types.TokenTypeId // genesis tokens besides VITE
}

type WorldOpt struct {
	Label    string
	Users    int
	SBPs     int
	Stake    *big.Int // stake beneficial amount per user (quota)
	Balance  *big.Int
	Registry int // registered SBPs (>= SBPs elected); default SBPs
	// Groups may change the configuration of the two consensus groups.
	Groups func(snapshot, delegate *config.ConsensusGroupInfo)
}

var initOnce sync.Once

// Setup initialises the process-wide configuration of the node.
func Setup() {
	initOnce.Do(setup)
}

func setup() {
	log15.Root().SetHandler(log15.DiscardHandler())
	upgrade.CleanupUpgradeBox()
	upgrade.InitUpgradeBox(upgrade.NewLatestUpgradeBox())
	vm.InitVMConfig(false, true, false, false, "")
}

func Units(n int64) *big.Int {
	return new(big.Int).Mul(big.NewInt(n), new(big.Int).Exp(big.NewInt(10), big.NewInt(18), nil))
}

func NewWorld(o WorldOpt) *World {
	Setup()
	if o.Stake == nil {
		o.Stake = Units(1000000)
	}
	if o.Balance == nil {
		o.Balance = Units(100000000)
	}
	if o.SBPs == 0 {
		o.SBPs = 3
	}
	if o.Registry < o.SBPs {
		o.Registry = o.SBPs
	}
	w := &World{ByAddr: map[types.Address]*Key{}, Stake: o.Stake}
	for i := 0; i < o.Users; i++ {
		k := MakeKey(fmt.Sprintf("%s/user/%d", o.Label, i))
		w.Users = append(w.Users, k)
		w.ByAddr[k.Addr] = k
	}
	for i := 0; i < o.Registry; i++ {
		k := MakeKey(fmt.Sprintf("%s/sbp/%d", o.Label, i))
		w.SBPs = append(w.SBPs, k)
		w.ByAddr[k.Addr] = k
	}
	root := MakeKey(o.Label + "/root")
	w.ByAddr[root.Addr] = root
	rootAddr := root.Addr
	w.Root = root
	g := &config.Genesis{GenesisAccountAddress: &rootAddr, UpgradeCfg: &config.Upgrade{Level: "latest"}}
	grp := func(interval, per int64, repeat uint16, level uint8) *config.ConsensusGroupInfo {
		return &config.ConsensusGroupInfo{
			NodeCount: uint8(o.SBPs), Interval: interval, PerCount: per, RandCount: 1, RandRank: 100, Repeat: repeat, CheckLevel: level,
			CountingTokenId: Vite, RegisterConditionId: 1,
			RegisterConditionParam: config.RegisterConditionParam{StakeAmount: Units(100000), StakeToken: Vite, StakeHeight: 1},
			VoteConditionId:        1, Owner: rootAddr, StakeAmount: big.NewInt(0), ExpirationHeight: 1,
		}
	}
	regs := map[string]*config.RegistrationInfo{}
	for i, k := range w.SBPs {
		a := k.Addr
		regs[fmt.Sprintf("s%d", i+1)] = &config.RegistrationInfo{BlockProducingAddress: &a, StakeAddress: &a, Amount: Units(100000),
			ExpirationHeight: 7776000, RewardTime: 1, RevokeTime: 0, HistoryAddressList: []types.Address{a}}
	}
	hisName := map[string]string{}
	for i, k := range w.SBPs {
		hisName[k.Addr.Hex()] = fmt.Sprintf("s%d", i+1)
	}
	g.GovernanceInfo = &config.GovernanceContractInfo{
		ConsensusGroupInfoMap: map[string]*config.ConsensusGroupInfo{
			"00000000000000000001": grp(1, 3, 1, 0),
			"00000000000000000002": grp(3, 1, 48, 1),
		},
		RegistrationInfoMap: map[string]map[string]*config.RegistrationInfo{"00000000000000000001": regs},
		HisNameMap:          map[string]map[string]string{"00000000000000000001": hisName},
	}
	// balances
	bal := map[string]map[string]*big.Int{}
	put := func(a types.Address, t types.TokenTypeId, v *big.Int) {
		if bal[a.Hex()] == nil {
			bal[a.Hex()] = map[string]*big.Int{}
		}
		bal[a.Hex()][t.Hex()] = new(big.Int).Set(v)
	}
	// three genesis tokens besides VITE, so that exchange and multi-token paths are exercised
	t1, _ := types.HexToTokenTypeId("tti_251a3e67a41b5ea2373936c8") // VCP mainnet id
	t2, _ := types.HexToTokenTypeId("tti_564954455820434f494e69b5") // VX
	w.Tokens = []types.TokenTypeId{t1, t2}
	total := map[types.TokenTypeId]*big.Int{Vite: new(big.Int), t1: new(big.Int), t2: new(big.Int)}
	ben := map[string]*big.Int{}
	stakeMap := map[string][]*config.StakeInfo{}
	stakeTotal := new(big.Int)
	give := func(k *Key, toks bool) {
		put(k.Addr, Vite, o.Balance)
		total[Vite].Add(total[Vite], o.Balance)
		if toks {
			for _, t := range w.Tokens {
				put(k.Addr, t, o.Balance)
				total[t].Add(total[t], o.Balance)
			}
		}
		if o.Stake.Sign() > 0 {
			ben[k.Addr.Hex()] = new(big.Int).Set(o.Stake)
			a := k.Addr
			stakeMap[rootAddr.Hex()] = append(stakeMap[rootAddr.Hex()], &config.StakeInfo{Amount: new(big.Int).Set(o.Stake), ExpirationHeight: 1, Beneficiary: &a})
			stakeTotal.Add(stakeTotal, o.Stake)
		}
	}
	for _, k := range w.Users {
		give(k, true)
	}
	for _, k := range w.SBPs {
		give(k, false)
	}
	give(root, true)
	// built-in contracts hold the staked amounts
	put(types.AddressQuota, Vite, stakeTotal)
	regTotal := new(big.Int).Mul(Units(100000), big.NewInt(int64(len(w.SBPs))))
	put(types.AddressGovernance, Vite, regTotal)
	total[Vite].Add(total[Vite], stakeTotal)
	total[Vite].Add(total[Vite], regTotal)
	g.AccountBalanceMap = bal
	maxS := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))
	mk := func(name, sym string, t types.TokenTypeId) *config.TokenInfo {
		return &config.TokenInfo{TokenName: name, TokenSymbol: sym, TotalSupply: total[t], Decimals: 18, Owner: rootAddr, MaxSupply: maxS, IsOwnerBurnOnly: false, IsReIssuable: true}
	}
	g.AssetInfo = &config.AssetContractInfo{TokenInfoMap: map[string]*config.TokenInfo{
		Vite.Hex(): mk("Vite Token", "VITE", Vite), t1.Hex(): mk("Vite Community Point", "VCP", t1), t2.Hex(): mk("ViteX Coin", "VX", t2)},
		LogList: []*config.GenesisVmLog{}}
	g.QuotaInfo = &config.QuotaContractInfo{StakeInfoMap: stakeMap, StakeBeneficialMap: ben}
	g.DexFundInfo = &config.DexFundContractInfo{Owner: &rootAddr}
	if o.Groups != nil {
		m := g.GovernanceInfo.ConsensusGroupInfoMap
		o.Groups(m["00000000000000000001"], m["00000000000000000002"])
	}
	w.Genesis = g
	return w
}

// ---------------------------------------------------------------- node

type netStub struct{}

func (netStub) SubscribeSyncStatus(fn func(net.SyncState)) int { return 0 }
func (netStub) UnsubscribeSyncStatus(int)                      {}
func (netStub) SyncState() net.SyncState                       { return net.SyncDone }

// chainNoLeak remembers databases other modules open through the chain, so a node can be closed.
type chainNoLeak struct {
	chain.Chain
	dbs *[]*leveldb.DB
}

func (c chainNoLeak) NewDb(dir string) (*leveldb.DB, error) {
	db, err := c.Chain.NewDb(dir)
	if err == nil {
		*c.dbs = append(*c.dbs, db)
	}
	return db, err
}

// PoolStub takes the blocks a contract worker produces.
type PoolStub struct {
	F func(b *interfaces.VmAccountBlock) error
}

func (p *PoolStub) AddDirectAccountBlock(a types.Address, b *interfaces.VmAccountBlock) error {
	if p.F == nil {
		return errors.New("no pool")
	}
	return p.F(b)
}

// ProducerStub lets a harness start contract production.
type ProducerStub struct {
	F func(producerevent.AccountEvent)
}

func (p *ProducerStub) SetAccountEventFunc(f func(producerevent.AccountEvent)) { p.F = f }

type coinbase struct{ k *Key }

func (c coinbase) Address() types.Address { return c.k.Addr }
func (c coinbase) Sign(msg []byte) ([]byte, ed25519.PublicKey, error) {
	return ed25519.Sign(c.k.Priv, msg), c.k.Pub, nil
}
func (c coinbase) Verify(pub ed25519.PublicKey, message, signdata []byte) error { return nil }

type Node struct {
	W      *World
	Pool   *PoolStub
	Prod   *ProducerStub
	Dir    string
	Chain  chain.Chain
	Cons   consensus.Consensus
	Ver    verifier.Verifier
	OnRoad *onroad.Manager
	Lock   *lock.EasyImpl
	dbs    []*leveldb.DB
	cfg    config.Chain
	seeds  map[types.Hash]uint64
	closed bool
}

// Open starts (or reopens) a node on dir.
func (w *World) Open(dir string) (*Node, error) { return w.OpenCfg(dir, config.Chain{}) }

func (w *World) OpenCfg(dir string, cfg config.Chain) (n *Node, err error) {
	n = &Node{W: w, Dir: dir, seeds: map[types.Hash]uint64{}, cfg: cfg}
	c := chain.NewChain(dir, &n.cfg, w.Genesis)
	if err := c.Init(); err != nil {
		return nil, fmt.Errorf("chain init: %w", err)
	}
	n.Chain = c
	n.Lock = &lock.EasyImpl{}
	n.Cons = consensus.NewConsensus(chainNoLeak{c, &n.dbs}, n.Lock)
	n.Pool, n.Prod = &PoolStub{}, &ProducerStub{}
	n.OnRoad = onroad.NewManager(netStub{}, n.Pool, n.Prod, n.Cons.SBPReader(), coinbase{w.SBPs[0]})
	n.Ver = verifier.NewVerifier(c)
	n.OnRoad.Init(c)
	n.Ver.Init(n.Cons, n.Cons.SBPReader(), n.OnRoad)
	n.OnRoad.Start()
	if err := n.Cons.Init(consensus.Cfg()); err != nil {
		return nil, fmt.Errorf("consensus init: %w", err)
	}
	c.SetConsensus(n.Cons, n.Cons.SBPReader().GetPeriodTimeIndex())
	return n, nil
}

// Close releases the node without flushing (a flush is a separate, explicit operation).
func (n *Node) Close() {
	if n.closed {
		return
	}
	n.closed = true
	n.OnRoad.Stop()
	n.OnRoad.Close()
	for _, d := range n.dbs {
		d.Close()
	}
	fl, pl, meta := n.Chain.Flusher(), n.Chain.Plugins(), leakedDB(n.Chain)
	n.Chain.Destroy()
	// files the chain leaves open when it is destroyed; a harness opens thousands of nodes
	func() {
		defer func() { recover() }()
		if fl != nil {
			fl.Close()
		}
		if meta != nil {
			meta.Close()
		}
		if pl != nil {
			pl.Store().Close()
		}
	}()
}

// leakedDB is the meta database of a chain, if it still has one.
func leakedDB(c interface{}) (db *leveldb.DB) {
	defer func() { recover() }()
	v := reflect.ValueOf(c).Elem().FieldByName("metaDB")
	if !v.IsValid() {
		return nil
	}
	db, _ = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem().Interface().(*leveldb.DB)
	return db
}

// CopyDir copies a ledger directory (a crash image, or a restart into a fresh location).
func CopyDir(src, dst string) error {
	return filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			if os.IsNotExist(err) {
				return nil
			}
			return err
		}
		rel, _ := filepath.Rel(src, p)
		t := filepath.Join(dst, rel)
		if fi.IsDir() {
			return os.MkdirAll(t, 0755)
		}
		if fi.Name() == "LOCK" {
			return nil
		}
		in, err := os.Open(p)
		if err != nil {
			if os.IsNotExist(err) {
				return nil
			}
			return err
		}
		defer in.Close()
		out, err := os.Create(t)
		if err != nil {
			return err
		}
		if _, err := io.Copy(out, in); err != nil {
			out.Close()
			return err
		}
		return out.Close()
	})
}

// Restart reopens the ledger in a copy of the directory. With flush it is an orderly restart,
// without it is a crash at this instant.
func (n *Node) Restart(newDir string, flush bool) (*Node, error) {
	if flush {
		n.Flush()
	}
	n.Close()
	if err := CopyDir(n.Dir, newDir); err != nil {
		return nil, err
	}
	os.RemoveAll(n.Dir)
	m, err := n.W.OpenCfg(newDir, n.cfg)
	if m != nil {
		m.seeds = n.seeds
	}
	return m, err
}

func (n *Node) Flush() { n.Chain.Flusher().Flush() }

var ErrPending = errors.New("pending")
var ErrNoBlock = errors.New("no block generated")

// Accept is the path every block takes into the ledger: network verification, full
// verification against the ledger, insertion.
func (n *Node) Accept(b *ledger.AccountBlock) error {
	if err := n.Ver.VerifyNetAccountBlock(b); err != nil {
		return err
	}
	return n.AcceptPool(b)
}

func (n *Node) AcceptPool(b *ledger.AccountBlock) error {
	task, vb, err := n.Ver.VerifyPoolAccountBlock(b, n.Chain.GetLatestSnapshotBlock())
	if err != nil {
		return err
	}
	if task != nil {
		return ErrPending
	}
	if vb == nil {
		return ErrNoBlock
	}
	return n.Chain.InsertAccountBlock(vb)
}

func (n *Node) gen(addr types.Address) (interfaces.Generator, error) {
	st, err := generator.GetAddressStateForGenerator(n.Chain, &addr)
	if err != nil {
		return nil, err
	}
	return generator.NewGenerator(n.Chain, n.Cons.SBPReader(), addr, st.LatestSnapshotHash, st.LatestAccountHash)
}

// Build produces a signed user block without inserting it.
func (n *Node) Build(k *Key, m *interfaces.IncomingMessage) (*ledger.AccountBlock, error) {
	m.AccountAddress = k.Addr
	g, err := n.gen(k.Addr)
	if err != nil {
		return nil, err
	}
	r, err := g.GenerateWithMessage(m, &k.Addr, k.sign)
	if err != nil {
		return nil, err
	}
	if r.Err != nil {
		return nil, r.Err
	}
	if r.VMBlock == nil {
		return nil, ErrNoBlock
	}
	return r.VMBlock.AccountBlock, nil
}

func (n *Node) SendMsg(k *Key, m *interfaces.IncomingMessage) (*ledger.AccountBlock, error) {
	b, err := n.Build(k, m)
	if err != nil {
		return nil, err
	}
	b = Wire(b)
	if err := n.Accept(b); err != nil {
		return b, &OwnBlockRejected{err}
	}
	return b, nil
}

// OwnBlockRejected: a block the node itself generated did not pass its own verification.
type OwnBlockRejected struct{ Err error }

func (e *OwnBlockRejected) Error() string { return "own block rejected: " + e.Err.Error() }

// Send transfers amount of token to addr with data (also contract calls).
func (n *Node) Send(k *Key, to types.Address, token types.TokenTypeId, amount *big.Int, data []byte) (*ledger.AccountBlock, error) {
	return n.SendMsg(k, &interfaces.IncomingMessage{BlockType: ledger.BlockTypeSendCall, ToAddress: &to, TokenId: &token, Amount: amount, Data: data})
}

type ContractOpt struct {
	Confirm, Seed, Ratio uint8
}

// Create deploys a contract whose code is runtime; returns the send block (ToAddress = contract).
func (n *Node) Create(k *Key, initCode []byte, amount *big.Int, o ContractOpt) (*ledger.AccountBlock, error) {
	if o.Ratio == 0 {
		o.Ratio = 10
	}
	data := util.GetCreateContractData(initCode, util.SolidityPPContractType, o.Confirm, o.Seed, o.Ratio, types.DELEGATE_GID)
	t := Vite
	return n.SendMsg(k, &interfaces.IncomingMessage{BlockType: ledger.BlockTypeSendCreate, TokenId: &t, Amount: amount, Data: data})
}

// Receive receives a pending send on a user account.
func (n *Node) Receive(k *Key, from types.Hash) (*ledger.AccountBlock, error) {
	return n.SendMsg(k, &interfaces.IncomingMessage{BlockType: ledger.BlockTypeReceive, FromBlockHash: &from})
}

// BuildContractReceive lets an elected producer receive send on a contract.
func (n *Node) BuildContractReceive(send *ledger.AccountBlock, producer *Key) (*interfaces.GenResult, error) {
	g, err := n.gen(send.ToAddress)
	if err != nil {
		return nil, err
	}
	return g.GenerateWithOnRoad(send, &producer.Addr, producer.sign, nil)
}

// ContractProducers returns the keys allowed to produce contract blocks now.
func (n *Node) ContractProducers() []*Key {
	head := n.Chain.GetLatestSnapshotBlock()
	idx, err := n.Cons.VoteTimeToIndex(types.DELEGATE_GID, *head.Timestamp)
	if err != nil {
		panic(err)
	}
	ev, _, err := n.Cons.ReadByIndex(types.DELEGATE_GID, idx)
	if err != nil {
		panic(err)
	}
	seen := map[types.Address]bool{}
	var out []*Key
	for _, e := range ev {
		if !seen[e.Address] {
			seen[e.Address] = true
			if k := n.W.ByAddr[e.Address]; k != nil {
				out = append(out, k)
			}
		}
	}
	return out
}

var ErrRetry = errors.New("contract receive must be retried later")

// ContractReceive processes one pending send of a contract the way a producer does.
// It returns the inserted receive block.
func (n *Node) ContractReceive(send *ledger.AccountBlock) (*ledger.AccountBlock, *interfaces.GenResult, error) {
	ps := n.ContractProducers()
	if len(ps) == 0 {
		return nil, nil, errors.New("no producer")
	}
	p := ps[int(send.Hash[0])%len(ps)]
	r, err := n.BuildContractReceive(send, p)
	if err != nil {
		return nil, r, err
	}
	if r.VMBlock == nil {
		if r.IsRetry {
			return nil, r, ErrRetry
		}
		return nil, r, ErrNoBlock
	}
	b := Wire(r.VMBlock.AccountBlock)
	if err := n.Accept(b); err != nil {
		return b, r, &OwnBlockRejected{err}
	}
	return b, r, nil
}

// ContractConfirmOK mirrors the producer's own precondition on confirmations of a send.
func (n *Node) ContractConfirmOK(send *ledger.AccountBlock) bool {
	meta, err := n.Chain.GetContractMeta(send.ToAddress)
	if err != nil || meta == nil {
		return false
	}
	if meta.SendConfirmedTimes == 0 {
		return true
	}
	t, err := n.Chain.GetConfirmedTimes(send.Hash)
	if err != nil || t < uint64(meta.SendConfirmedTimes) {
		return false
	}
	if meta.SeedConfirmedTimes > 0 {
		ok, err := n.Chain.IsSeedConfirmedNTimes(send.Hash, uint64(meta.SeedConfirmedTimes))
		if err != nil || !ok {
			return false
		}
	}
	return true
}

// Front returns the pending sends of a contract that may be received next.
func (n *Node) Front(contract types.Address) []*ledger.AccountBlock {
	l, err := n.OnRoad.GetAllCallersFrontOnRoad(types.DELEGATE_GID, contract)
	if err != nil {
		return nil
	}
	return l
}

// ---------------------------------------------------------------- snapshots

// Slot finds the skip-th production slot after the current head.
func (n *Node) Slot(skip int) (*consensus.Event, error) {
	head := n.Chain.GetLatestSnapshotBlock()
	idx, err := n.Cons.VoteTimeToIndex(types.SNAPSHOT_GID, *head.Timestamp)
	if err != nil {
		return nil, err
	}
	for i := 0; i < 100000; i++ {
		ev, _, err := n.Cons.ReadByIndex(types.SNAPSHOT_GID, idx+uint64(i))
		if err != nil {
			return nil, err
		}
		for _, e := range ev {
			if e.Stime.After(*head.Timestamp) {
				if skip > 0 {
					skip--
					continue
				}
				return e, nil
			}
		}
	}
	return nil, errors.New("no slot")
}

// SlotAfter finds the first production slot at or after t.
func (n *Node) SlotAfter(t time.Time) (*consensus.Event, error) {
	idx, err := n.Cons.VoteTimeToIndex(types.SNAPSHOT_GID, t)
	if err != nil {
		return nil, err
	}
	for i := 0; i < 10; i++ {
		ev, _, err := n.Cons.ReadByIndex(types.SNAPSHOT_GID, idx+uint64(i))
		if err != nil {
			return nil, err
		}
		for _, e := range ev {
			if !e.Stime.Before(t) {
				return e, nil
			}
		}
	}
	return nil, errors.New("no slot")
}

// Content is the snapshot content covering the first count unconfirmed blocks (all if < 0).
func (n *Node) Content(count int) ledger.SnapshotContent {
	bs := n.Chain.GetAllUnconfirmedBlocks()
	if count >= 0 && count < len(bs) {
		bs = bs[:count]
	}
	sc := ledger.SnapshotContent{}
	for _, b := range bs {
		sc[b.AccountAddress] = &ledger.HashHeight{Height: b.Height, Hash: b.Hash}
	}
	return sc
}

func (n *Node) BuildSnapshot(e *consensus.Event, content ledger.SnapshotContent) (*ledger.SnapshotBlock, error) {
	head := n.Chain.GetLatestSnapshotBlock()
	ts := e.Timestamp
	b := &ledger.SnapshotBlock{PrevHash: head.Hash, Height: head.Height + 1, Timestamp: &ts, SnapshotContent: content}
	h := sha256.Sum256([]byte(fmt.Sprintf("seed/%s/%d", e.Address, ts.Unix())))
	seed := binary.BigEndian.Uint64(h[:8])
	if seed == 0 {
		seed = 1
	}
	last, err := n.Chain.GetLastUnpublishedSeedSnapshotHeader(e.Address, e.PeriodStime)
	if err == nil && last != nil {
		if last.Timestamp.Before(e.PeriodStime) && last.SeedHash != nil {
			sh := ledger.ComputeSeedHash(seed, b.PrevHash, b.Timestamp)
			b.SeedHash = &sh
			lh := sha256.Sum256([]byte(fmt.Sprintf("seed/%s/%d", e.Address, last.Timestamp.Unix())))
			b.Seed = binary.BigEndian.Uint64(lh[:8])
		}
	} else {
		sh := ledger.ComputeSeedHash(seed, b.PrevHash, b.Timestamp)
		b.SeedHash = &sh
	}
	b.Version = upgrade.GetLatestPoint().Version
	b.Hash = b.ComputeHash()
	k := n.W.ByAddr[e.Address]
	if k == nil {
		return nil, fmt.Errorf("unknown producer %s", e.Address)
	}
	b.Signature, b.PublicKey, _ = k.Sign(b.Hash.Bytes())
	return b, nil
}

// AcceptSnapshot runs the full verification and insertion of a snapshot block.
func (n *Node) AcceptSnapshot(b *ledger.SnapshotBlock) ([]*ledger.AccountBlock, error) {
	if err := n.Ver.VerifyNetSnapshotBlock(b); err != nil {
		return nil, err
	}
	stat := n.Ver.VerifyReferred(b)
	if stat.VerifyResult() != verifier.SUCCESS {
		return nil, fmt.Errorf("snapshot verify: %v %s", stat.VerifyResult(), stat.ErrMsg())
	}
	return n.Chain.InsertSnapshotBlock(b)
}

// Snapshot produces, verifies and inserts the next snapshot block.
func (n *Node) Snapshot(skip, count int) (*ledger.SnapshotBlock, []*ledger.AccountBlock, error) {
	e, err := n.Slot(skip)
	if err != nil {
		return nil, nil, err
	}
	return n.SnapshotAt(e, count)
}

func (n *Node) SnapshotAt(e *consensus.Event, count int) (*ledger.SnapshotBlock, []*ledger.AccountBlock, error) {
	return n.SnapshotOf(e, n.Content(count))
}

func (n *Node) SnapshotOf(e *consensus.Event, content ledger.SnapshotContent) (*ledger.SnapshotBlock, []*ledger.AccountBlock, error) {
	b, err := n.BuildSnapshot(e, content)
	if err != nil {
		return nil, nil, err
	}
	w := WireSnapshot(b)
	inv, err := n.AcceptSnapshot(w)
	if err != nil {
		return w, inv, &OwnBlockRejected{err}
	}
	return w, inv, nil
}

// ---------------------------------------------------------------- wire

func Wire(b *ledger.AccountBlock) *ledger.AccountBlock {
	buf, err := b.Serialize()
	if err != nil {
		panic(err)
	}
	o := &ledger.AccountBlock{}
	if err := o.Deserialize(buf); err != nil {
		panic(err)
	}
	return o
}

func WireSnapshot(b *ledger.SnapshotBlock) *ledger.SnapshotBlock {
	buf, err := b.Serialize()
	if err != nil {
		panic(err)
	}
	o := &ledger.SnapshotBlock{}
	if err := o.Deserialize(buf); err != nil {
		panic(err)
	}
	return o
}

// Scratch makes a scratch directory for ledgers (memory backed where possible).
func Scratch(name string) string {
	base := os.Getenv("VERIF_SCRATCH")
	if base == "" {
		base = os.TempDir()
	}
	d, err := os.MkdirTemp(base, "vsim-"+strings.ReplaceAll(name, "/", "_")+"-")
	if err != nil {
		panic(err)
	}
	return d
}
