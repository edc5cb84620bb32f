package xmssmt

// Sequence numbers: C03, C18, C19, C20, C22.

func gvcErrorIff(ctr *gvcCtr, err Error) {
	gvcAssert((err != nil) == ctr.failed, "an operation of the key fails if and only if one of the container does")
}

// gvcJoin: let all background workers finish.
func gvcJoin(sk *PrivateKey) {
	gvcRunThreads()
	sk.wg.Wait()
}

func gvcAfter(sk *PrivateKey, ctr *gvcCtr) {
	gvcAssert(!gvcHeld(&sk.mux), "the lock is released")
	gvcAssert(gvcSeqInv(sk, ctr), "unused numbers: all below the recorded sequence number, none used before")
}

//gvc:harness C03,C14,C18,C19,C20,C22
func hC03GetSeqNo() {
	p := gvcKeyParams()
	sk, ctr := gvcAnyKey(p, true)
	ctr.faults = true
	s0, b0 := uint64(sk.seqNo), sk.borrowed
	r, err := sk.getSeqNo()
	seqNo := uint64(r)
	max := uint64(1)<<p.FullHeight - 1
	if s0 >= max {
		gvcAssert(err != nil, "no sequence number is handed out when none is left")
		gvcAssert(uint64(sk.seqNo) == s0 && sk.borrowed == b0 && ctr.writes == 0, "a failing attempt to sign with an exhausted key changes nothing")
		gvcAfter(sk, ctr)
		return
	}
	gvcAssert((err != nil) == ctr.failed, "below the maximum a sequence number is handed out unless the container fails")
	if err == nil {
		gvcAssert(seqNo >= s0 && seqNo < max, "the sequence number handed out was not used before and is below the maximum")
		gvcAssert(uint64(sk.seqNo) > seqNo, "the next sequence number is beyond the one handed out")
		gvcAssert(ctr.disk > seqNo, "a larger sequence number is recorded before the one handed out is used")
		gvcAssert(seqNo == s0 && uint64(sk.seqNo) == s0+1, "sequence numbers are used in order")
		ctr.floor = seqNo + 1
		if b0 > 0 {
			gvcAssert(sk.borrowed == b0-1 && ctr.writes == 0, "a reserved number is used without a write to the container")
		} else {
			gvcAssert(sk.borrowed == 0, "no number is reserved by signing")
		}
	} else {
		gvcAssert(uint64(sk.seqNo) >= s0 && (sk.borrowed <= b0), "a failed attempt returns no number to the unused ones")
	}
	gvcAfter(sk, ctr)
	gvcAssert(gvcLostInv(sk, ctr), "lost numbers are covered by the recorded reservation")
	gvcJoin(sk)
	gvcAfter(sk, ctr)
	for _, g := range ctr.got {
		gvcAssert(g.sta.Layer < p.D, "the subtree computed in advance is one of the key's")
		h := sk.ctx.treeHeight * (g.sta.Layer + 1)
		gvcAssert(g.sta.Tree >= s0>>h, "no subtree is computed that only served numbers used before: nothing would discard it")
	}
}

// Without failures, numbers recorded and used agree up to the reservation.
func gvcExact(sk *PrivateKey, ctr *gvcCtr) bool {
	return ctr.mem == ctr.disk && ctr.disk == uint64(sk.seqNo)+uint64(sk.borrowed) && ctr.lost == ctr.memLost && ctr.lost >= sk.borrowed
}

func gvcMakeExact(sk *PrivateKey, ctr *gvcCtr) {
	ctr.torn = false
	ctr.mem = uint64(sk.seqNo) + uint64(sk.borrowed)
	ctr.disk = ctr.mem
	l := gvcRange("more lost", 0, 1<<32-1)
	gvcAssume(l+uint64(sk.borrowed) < 1<<32)
	ctr.lost = sk.borrowed + uint32(l)
	ctr.memLost = ctr.lost
}

//gvc:harness C20
func hC20GetSeqNo() {
	p := gvcKeyParams()
	sk, ctr := gvcAnyKey(p, false)
	gvcMakeExact(sk, ctr)
	gvcAssume(uint64(sk.seqNo) < uint64(1)<<p.FullHeight-1)
	l0 := ctr.lost
	_, err := sk.getSeqNo()
	gvcAssert(err == nil, "signing succeeds")
	gvcAssert(gvcExact(sk, ctr), "what is recorded is the next number plus the reservation")
	gvcAssert(ctr.lost <= l0, "without a reservation nothing is reported lost")
}

//gvc:harness C03,C18,C20,C22
func hC03Borrow() {
	p := Params{Func: SHA2, N: 32, WotsW: 16, FullHeight: 4, D: 2, Prf: RFC}
	sk, ctr := gvcAnyKey(p, true)
	ctr.faults = gvcChoose("container may fail", 2) == 1
	exact := !ctr.faults
	if exact {
		gvcMakeExact(sk, ctr)
	}
	s0, b0, l0 := uint64(sk.seqNo), sk.borrowed, uint64(ctr.lost)
	amount := b0
	switch gvcChoose("amount", 3) {
	case 1:
		d := gvcRange("more", 1, 1<<32-1)
		gvcAssume(uint64(b0)+d < 1<<32)
		amount += uint32(d)
	case 2:
		d := gvcRange("less", 1, 1<<32-1)
		gvcAssume(d <= uint64(b0))
		amount -= uint32(d)
	}
	gvcAssume(l0+uint64(amount) < 1<<32 && uint64(ctr.memLost)+uint64(amount) < 1<<32) // the container's counter has 32 bits
	var err Error
	did := true
	if gvcChoose("if below", 2) == 1 {
		t := gvcU32("threshold")
		did = b0 <= t
		err = sk.BorrowExactlyIfBelow(amount, t)
	} else {
		err = sk.BorrowExactly(amount)
	}
	gvcErrorIff(ctr, err)
	gvcAssert(uint64(sk.seqNo) == s0, "reserving does not change the next sequence number")
	if !did {
		gvcAssert(sk.borrowed == b0 && ctr.writes == 0, "nothing is reserved when enough is")
	} else if err == nil {
		gvcAssert(sk.borrowed == amount, "exactly the requested number of sequence numbers is reserved")
		gvcAssert(sk.BorrowedSeqNos() == amount, "BorrowedSeqNos returns the number reserved")
	} else {
		gvcAssert(sk.borrowed <= b0, "a failed reservation reserves nothing")
	}
	if exact {
		gvcAssert(gvcExact(sk, ctr), "what is recorded is the next number plus the reservation")
		if did {
			gvcAssert(amount > 0 || ctr.lost <= uint32(l0), "reserving nothing records no reservation")
		}
		gvcAssert(uint64(ctr.lost) <= l0+uint64(amount), "no more is reported lost than was reserved")
	}
	gvcAfter(sk, ctr)
	gvcAssert(gvcLostInv(sk, ctr), "lost numbers are covered by the recorded reservation")
}

//gvc:harness C03,C18,C20,C22
func hC03Close() {
	p := gvcKeyParams()
	sk, ctr := gvcAnyKey(p, true)
	ctr.faults = gvcFork("container may fail", 2) == 1
	exact := !ctr.faults
	if exact {
		gvcMakeExact(sk, ctr)
	}
	s0 := uint64(sk.seqNo)
	err := sk.Close()
	gvcErrorIff(ctr, err)
	gvcAssert(ctr.closes == 1, "the container is closed, also if something fails before")
	gvcAssert(uint64(sk.seqNo) == s0, "closing does not change the next sequence number")
	gvcAfter(sk, ctr)
	gvcAssert(gvcLostInv(sk, ctr), "lost numbers are covered by the recorded reservation")
	if exact {
		gvcAssert(ctr.disk == s0, "closing returns the unused sequence numbers")
		gvcAssert(ctr.lost == 0, "nothing is reported lost after closing")
	}
}

// Close while a background worker generates a subtree: Close waits for it
// without holding the lock it needs.
//
//gvc:harness C18
func hC18CloseWhilePrecomputing() {
	p := gvcKeyParams()
	sk, ctr := gvcAnyKey(p, false)
	gvcAssume(uint64(sk.seqNo) < uint64(1)<<p.FullHeight-1)
	if gvcFork("start", 2) == 0 {
		sk.EnableSubTreePrecomputation()
	} else {
		sk.getSeqNo()
	}
	k := gvcPending()
	err := sk.Close()
	gvcAssert(ctr.depth >= k, "Close waits for the background workers")
	gvcAssert(err == nil, "Close succeeds")
	gvcAssert(!gvcHeld(&sk.mux), "the lock is released")
}

// The methods that only look.
//
//gvc:harness C18,C14,C20
func hC18Getters() {
	p := gvcKeyParams()
	sk, ctr := gvcAnyKey(p, false)
	s0, b0 := uint64(sk.seqNo), sk.borrowed
	switch gvcFork("method", 7) {
	case 0:
		gvcAssert(uint64(sk.SeqNo()) == s0, "SeqNo returns the next sequence number")
	case 1:
		gvcAssert(sk.BorrowedSeqNos() == b0, "BorrowedSeqNos returns the number reserved")
	case 2:
		sk.UnretiredSeqNos()
	case 3:
		sk.CachedSubTrees()
	case 4:
		sk.PublicKey()
	case 5:
		sk.Context()
	case 6:
		sk.EnableSubTreePrecomputation()
		gvcJoin(sk)
		gvcAfter(sk, ctr)
		return
	}
	gvcAfter(sk, ctr)
	gvcAssert(uint64(sk.seqNo) == s0 && sk.borrowed == b0 && ctr.writes == 0, "looking changes nothing")
}

//gvc:harness C18,C14
func hC18DangerousSetSeqNo() {
	p := gvcKeyParams()
	sk, _ := gvcAnyKey(p, false)
	least := gvcRange("least unfinished", 0, 1<<62)
	sk.leastSeqNoInUse = SignatureSeqNo(least)
	if gvcFork("finished numbers", 2) == 1 {
		f := least + 1 + gvcRange("finished", 0, 1<<32-2)
		sk.retiredSeqNos = &seqNoHeap{SignatureSeqNo(f)}
	}
	s := gvcU64("new seqNo")
	sk.DangerousSetSeqNo(SignatureSeqNo(s))
	gvcAssert(!gvcHeld(&sk.mux), "the lock is released")
	gvcAssert(uint64(sk.SeqNo()) == s, "DangerousSetSeqNo sets the next sequence number")
	gvcAssert(sk.UnretiredSeqNos() == 0 && uint64(sk.leastSeqNoInUse) == s && sk.retiredSeqNos.Len() == 0, "after DangerousSetSeqNo all numbers below the new one count as finished")
}
