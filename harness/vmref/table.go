package main

import (
	"fmt"
	"reflect"

	"github.com/vitelabs/go-vite/v2/vm/util"
)

// goldenTable is the published cost table at the given height.
func goldenTable(h uint64) *util.QuotaTable {
	t := util.QuotaTable{
		AddQuota: 2, MulQuota: 2, SubQuota: 2, DivQuota: 3, SDivQuota: 5, ModQuota: 3, SModQuota: 4, AddModQuota: 4, MulModQuota: 5,
		ExpQuota: 10, ExpByteQuota: 50, SignExtendQuota: 2, LtQuota: 2, GtQuota: 2, SltQuota: 2, SgtQuota: 2, EqQuota: 2, IsZeroQuota: 1,
		AndQuota: 2, OrQuota: 2, XorQuota: 2, NotQuota: 2, ByteQuota: 2, ShlQuota: 2, ShrQuota: 2, SarQuota: 3,
		Blake2bQuota: 20, Blake2bWordQuota: 1, AddressQuota: 1, BalanceQuota: 150, CallerQuota: 1, CallValueQuota: 1,
		CallDataLoadQuota: 2, CallDataSizeQuota: 1, CallDataCopyQuota: 3, MemCopyWordQuota: 3, CodeSizeQuota: 1, CodeCopyQuota: 3,
		ReturnDataSizeQuota: 1, ReturnDataCopyQuota: 3, TimestampQuota: 1, HeightQuota: 1, TokenIDQuota: 1, AccountHeightQuota: 1,
		PreviousHashQuota: 1, FromBlockHashQuota: 1, SeedQuota: 200, RandomQuota: 250, PopQuota: 1, MloadQuota: 2, MstoreQuota: 1,
		Mstore8Quota: 1, SloadQuota: 150, SstoreResetQuota: 15000, SstoreInitQuota: 15000, SstoreCleanQuota: 0, SstoreNoopQuota: 200,
		SstoreMemQuota: 200, JumpQuota: 4, JumpiQuota: 4, PcQuota: 1, MsizeQuota: 1, JumpdestQuota: 1, PushQuota: 1, DupQuota: 1,
		SwapQuota: 2, LogQuota: 375, LogTopicQuota: 375, LogDataQuota: 12, CallMinusQuota: 13500, MemQuotaDivision: 1024,
		SnapshotQuota: 40, CodeQuota: 160, MemQuota: 1, TxQuota: 21000, TxDataQuota: 68, CreateTxRequestQuota: 31000, CreateTxResponseQuota: 31000,
	}
	if h >= 1000 {
		t.CodeQuota, t.TxDataQuota = 16, 28
	}
	return &t
}

// tables compares the costs in force with the published ones.
func (x *runner) tables() {
	for h := uint64(200); h <= 1300; h += 50 {
		g := reflect.ValueOf(*goldenTable(h))
		v := reflect.ValueOf(*util.QuotaTableByHeight(h))
		n := 0
		for i := 0; i < g.NumField(); i++ {
			name := g.Type().Field(i).Name
			if g.Field(i).Uint() == 0 && name != "SstoreCleanQuota" {
				continue // built-in contract costs
			}
			n++
			if g.Field(i).Uint() != v.Field(i).Uint() {
				x.r.Violate(fmt.Sprintf("table%d", h), "cost-"+name, "at height %d %s costs %d, published %d", h, name, v.Field(i).Uint(), g.Field(i).Uint())
			}
		}
		x.r.Count("published costs compared", int64(n))
	}
}
