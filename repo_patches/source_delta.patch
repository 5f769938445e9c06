From 6919abf4ce149ba76b5a9449c06edba964c9f03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 01/22] fix: count a donation that equals the block's MEV
 payment

GetDonations dropped every EtherReceived event with the amount of the MEV
payment, so ether of a donor that sent exactly that amount in the same block
was never distributed, and the offchain reconciliation stopped the oracle at
the next checkpoint.
---
 oracle/block.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/oracle/block.go b/oracle/block.go
index 228abf7..31da91c 100644
--- a/oracle/block.go
+++ b/oracle/block.go
@@ -573,19 +573,25 @@ func (b *FullBlock) GetDonations(poolAddress string) []*contract.ContractEtherRe
 	}
 
 	// If the pool got an mev reward, we must filter the mev reward
-	// from the event, as thats not considered a donation
-	filteredEvents := make([]*contract.ContractEtherReceived, 0)
-	foundMev := false
-	for _, etherRxEvent := range b.Events.EtherReceived {
+	// from the event, as thats not considered a donation. Its paid by the last
+	// tx of the block, so only the last matching event is filtered: any other
+	// one with the same amount is a donation.
+	mevIndex := -1
+	for i, etherRxEvent := range b.Events.EtherReceived {
 		if etherRxEvent.DonationAmount.Cmp(mevReward) == 0 {
-			foundMev = true
-			continue
+			mevIndex = i
+		}
+	}
+
+	filteredEvents := make([]*contract.ContractEtherReceived, 0)
+	for i, etherRxEvent := range b.Events.EtherReceived {
+		if i != mevIndex {
+			filteredEvents = append(filteredEvents, etherRxEvent)
 		}
-		filteredEvents = append(filteredEvents, etherRxEvent)
 	}
 
 	// Sanity check
-	if !foundMev {
+	if mevIndex == -1 {
 		log.Fatal("An mev reward was expected but could not find it. "+
 			"Wanted reward: ", mevReward, " Events: ", b.Events.EtherReceived)
 	}
-- 
2.43.0


From fe974d6800ba89ef47ba16f68183b17629abea03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:54 +0000
Subject: [PATCH 02/22] fix: send pending_consolidations requests to the
 configured endpoint

The address exposed by the consensus client has its path, query and password
masked, so with such an endpoint every cleanup request went to a wrong URL and
the oracle never got past the first cleanup slot.
---
 oracle/onchain.go | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/oracle/onchain.go b/oracle/onchain.go
index 1419d49..499084d 100644
--- a/oracle/onchain.go
+++ b/oracle/onchain.go
@@ -9,6 +9,7 @@ import (
 	"io"
 	"math/big"
 	normalHttp "net/http"
+	"net/url"
 	"strconv"
 	"strings"
 	"time"
@@ -73,6 +74,10 @@ type Onchain struct {
 	PoolAddress     string
 	ChainId         uint64
 	validators      map[phase0.ValidatorIndex]*v1.Validator
+
+	// Endpoint as configured. The address the consensus client exposes has
+	// its path and credentials masked, so it can't be used to send requests.
+	consensusEndpoint string
 }
 
 func NewOnchain(cliCfg *config.CliConfig, updaterKey *ecdsa.PrivateKey) (*Onchain, error) {
@@ -163,6 +168,8 @@ func NewOnchain(cliCfg *config.CliConfig, updaterKey *ecdsa.PrivateKey) (*Onchai
 		ChainId:         uint64(chainId.Int64()),
 		updaterKey:      updaterKey,
 		UpdaterAddress:  updaterAddress,
+
+		consensusEndpoint: cliCfg.ConsensusEndpoint,
 	}, nil
 }
 
@@ -1884,15 +1891,21 @@ type PendingConsolidationsResponse struct {
 }
 
 func (o *Onchain) GetPendingConsolidations(stateID string, opts ...retry.Option) (*PendingConsolidationsResponse, error) {
-	var (
-		consolidations *PendingConsolidationsResponse
-		err            error
-	)
+	var consolidations *PendingConsolidationsResponse
 
-	err = retry.Do(func() error {
-		url := fmt.Sprintf("%s/eth/v1/beacon/states/%s/pending_consolidations", o.ConsensusClient.Address(), stateID)
+	// Same as the consensus client does with its endpoint
+	endpoint := o.consensusEndpoint
+	if !strings.HasPrefix(endpoint, "http") {
+		endpoint = "http://" + endpoint
+	}
+	base, err := url.Parse(endpoint)
+	if err != nil {
+		return nil, fmt.Errorf("invalid consensus endpoint: %w", err)
+	}
+	callUrl := base.JoinPath("eth/v1/beacon/states", stateID, "pending_consolidations").String()
 
-		req, reqErr := normalHttp.NewRequest(normalHttp.MethodGet, url, nil)
+	err = retry.Do(func() error {
+		req, reqErr := normalHttp.NewRequest(normalHttp.MethodGet, callUrl, nil)
 		if reqErr != nil {
 			return fmt.Errorf("creating request failed: %w", reqErr)
 		}
-- 
2.43.0


From b70ce54cf4a61c7f098870f1df4e6ef023e3c286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:26 +0000
Subject: [PATCH 03/22] fix: clean up validators in index order

ValidatorCleanup ranged over a map. When a consolidation's target is cleaned up
in the same slot, who gets the source's pending rewards depended on which of
the two was visited first, so oracles could end up with different roots.
---
 oracle/oracle.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index 2aee065..f1b1b36 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -11,6 +11,7 @@ import (
 	"math/big"
 	"os"
 	"path/filepath"
+	"sort"
 	"sync"
 
 	"github.com/avast/retry-go/v4"
@@ -300,7 +301,18 @@ func (or *Oracle) ValidatorCleanup(slot uint64) error {
 		// Iterate over all validators. If two or more validators exit or get slashed in the same slot,
 		// this cleanup will eventually set both of their pending rewards to 0 and share them among the pool
 		rewardsToDistribute := big.NewInt(0)
-		for _, validator := range validatorInfo {
+
+		// The order matters when the target of a consolidation is also cleaned up, so all
+		// oracles have to use the same one
+		infoIndices := make([]phase0.ValidatorIndex, 0, len(validatorInfo))
+		for idx := range validatorInfo {
+			infoIndices = append(infoIndices, idx)
+		}
+		sort.Slice(infoIndices, func(i, j int) bool { return infoIndices[i] < infoIndices[j] })
+
+		for _, infoIdx := range infoIndices {
+			validator := validatorInfo[infoIdx]
+
 			// If a validator is subscribed but not active onchain, we have to unsubscribe it and treat it as a ban:
 			// this means setting the validator rewards to 0 and sharing them among the pool
 			idx := uint64(validator.Index)
-- 
2.43.0


From d59e28cfbec90bcc9390b1287626502c6510f5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:32 +0000
Subject: [PATCH 04/22] fix: do not stop when eligible validators have no
 effective balance

After Electra rewards are shared by effective balance. When all eligible
validators have exited and been withdrawn the total is zero, and the oracle
stopped at that slot on every restart. The pool gets the reward instead.
---
 oracle/oracle.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index f1b1b36..c8e5294 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -1613,7 +1613,10 @@ func (or *Oracle) handleElectraRewardDistribution(
 		totalBalance.Add(totalBalance, big.NewInt(int64(v.Validator.EffectiveBalance)))
 	}
 	if totalBalance.Sign() == 0 {
-		return nil, nil, fmt.Errorf("total balance is zero")
+		// Nobody to share with: exited validators whose balance was already withdrawn are
+		// still eligible until the next cleanup. Same as with no eligible validators.
+		log.Warn("Eligible validators have no effective balance, pool fees address will receive all")
+		return map[uint64]*big.Int{}, new(big.Int).Set(reward), nil
 	}
 
 	// perValidatorRewards is a map of validator index to the amount of rewards they will receive
-- 
2.43.0


From d1ea846c16b9db52c987a781b05c6a943480b3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:04 +0000
Subject: [PATCH 05/22] fix: do not take a last transaction that pays the pool
 nothing as its MEV payment

A subscription, an unsubscription or a reverted transfer sent to the pool by
the block's fee recipient as the last transaction emits no EtherReceived event,
and all oracles stopped for good with 'An mev reward was expected'.
---
 oracle/block.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/oracle/block.go b/oracle/block.go
index 31da91c..e95fff8 100644
--- a/oracle/block.go
+++ b/oracle/block.go
@@ -397,6 +397,24 @@ func (b *FullBlock) MevRewardInWei() (*big.Int, bool, string) {
 	return big.NewInt(0), false, ""
 }
 
+// Same as MevRewardInWei, but a last tx sent to the pool is only an mev reward if the pool got it.
+// When the pool receives ether in any other way (eg the last tx is a subscription) or does not get
+// it at all (eg the last tx is reverted) there is no EtherReceived event with the amount of the tx.
+func (b *FullBlock) mevRewardReceived(poolAddress string) (*big.Int, bool, string) {
+	mevReward, isMev, mevRec := b.MevRewardInWei()
+
+	if isMev && utils.Equals(mevRec, poolAddress) {
+		for _, event := range b.Events.EtherReceived {
+			if event.DonationAmount.Cmp(mevReward) == 0 {
+				return mevReward, true, mevRec
+			}
+		}
+		return big.NewInt(0), false, ""
+	}
+
+	return mevReward, isMev, mevRec
+}
+
 // Returns if the address received any reward, its amount and its type. A reward
 // can be i) mev (MEV reward) or ii) vanila (just fees as per EIP1559)
 // For the oracle, a reward is either one type or the other. It cannot be both
@@ -409,7 +427,7 @@ func (b *FullBlock) GetSentRewardAndType(
 	var wasRewardSent bool = false
 
 	// i) check if mev reward (first as its cheaper to check)
-	mevReward, mevPresent, mevRecipient := b.MevRewardInWei()
+	mevReward, mevPresent, mevRecipient := b.mevRewardReceived(poolAddress)
 
 	if mevPresent {
 		// there is mev, store its value and set type
@@ -452,7 +470,7 @@ func (b *FullBlock) isAddressRewarded(address string) bool {
 		return true
 	}
 
-	_, isMev, mevRec := b.MevRewardInWei()
+	_, isMev, mevRec := b.mevRewardReceived(address)
 	if isMev && utils.Equals(mevRec, address) {
 		return true
 	}
@@ -563,7 +581,7 @@ func (b *FullBlock) GetDonations(poolAddress string) []*contract.ContractEtherRe
 
 	// EtherReceived event mixes: donations + mev rewards
 	// We need to filter out mev rewards
-	mevReward, isMev, mevRec := b.MevRewardInWei()
+	mevReward, isMev, mevRec := b.mevRewardReceived(poolAddress)
 
 	// If no mev reward or mev reward but not to the pool
 	if !isMev || !utils.Equals(mevRec, poolAddress) {
-- 
2.43.0


From ecf3d078c6b54f79d4891195e69ea2c770ed24bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:22 +0000
Subject: [PATCH 06/22] fix: do not underflow when the node reports an older
 finalized slot than the processed one

---
 api/api.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/api/api.go b/api/api.go
index 8c42474..c84ee73 100644
--- a/api/api.go
+++ b/api/api.go
@@ -462,9 +462,14 @@ func (m *ApiService) handleStatus(w http.ResponseWriter, req *http.Request) {
 
 	finalizedSlot := uint64(finality.Header.Message.Slot)
 
+	// The finalized slot can be lower than the processed one, if the node reports
+	// an older slot than before
 	oracleSync := false
-	if m.oracle.State().LatestProcessedSlot-finalizedSlot == 0 {
+	oracleHeadDistance := uint64(0)
+	if m.oracle.State().LatestProcessedSlot >= finalizedSlot {
 		oracleSync = true
+	} else {
+		oracleHeadDistance = finalizedSlot - m.oracle.State().LatestProcessedSlot
 	}
 
 	_, onchainSlot, err := m.Onchain.GetOnchainSlotAndRoot(apiRetryOpts...)
@@ -480,6 +485,11 @@ func (m *ApiService) handleStatus(w http.ResponseWriter, req *http.Request) {
 		nextCheckpointInSlots = onchainSlot + m.cfg.CheckPointSizeInSlots - finalizedSlot
 	}
 
+	previousCheckpointAgeInSlots := uint64(0)
+	if finalizedSlot > onchainSlot {
+		previousCheckpointAgeInSlots = finalizedSlot - onchainSlot
+	}
+
 	status := httpOkStatus{
 		IsConsensusInSync:           consInSync,
 		IsExecutionInSync:           execInSync,
@@ -488,15 +498,15 @@ func (m *ApiService) handleStatus(w http.ResponseWriter, req *http.Request) {
 		LatestProcessedBlock:        m.oracle.State().LatestProcessedBlock,
 		LatestFinalizedEpoch:        finalizedSlot / 32,
 		LatestFinalizedSlot:         finalizedSlot,
-		OracleHeadDistance:          finalizedSlot - m.oracle.State().LatestProcessedSlot,
+		OracleHeadDistance:          oracleHeadDistance,
 		NextCheckpointSlot:          onchainSlot + m.cfg.CheckPointSizeInSlots,
 		NextCheckpointTime:          "", // TODO:
 		NextCheckpointRemaining:     utils.SlotsToTime(nextCheckpointInSlots, constants.SecondsInSlot),
 		NextCheckpointRemainingUnix: nextCheckpointInSlots * constants.SecondsInSlot,
 		PreviousCheckpointSlot:      onchainSlot,
 		PreviousCheckpointTime:      "", // TODO:
-		PreviousCheckpointAge:       utils.SlotsToTime(finalizedSlot-onchainSlot, constants.SecondsInSlot),
-		PreviousCheckpointAgeUnix:   (finalizedSlot - onchainSlot) * constants.SecondsInSlot,
+		PreviousCheckpointAge:       utils.SlotsToTime(previousCheckpointAgeInSlots, constants.SecondsInSlot),
+		PreviousCheckpointAgeUnix:   previousCheckpointAgeInSlots * constants.SecondsInSlot,
 		ExecutionChainId:            chainId.String(),
 		ConsensusChainId:            strconv.FormatUint(depositContract.Data.ChainID, 10),
 		DepositContact:              hexutil.Encode(depositContract.Data.Address[:]),
@@ -1263,7 +1273,14 @@ func (m *ApiService) OracleReady(maxSlotsBehind uint64) bool {
 		return false
 	}
 
-	slotsFromFinalized := finalizedSlot - m.oracle.State().LatestProcessedSlot
+	latestProcessedSlot := m.oracle.State().LatestProcessedSlot
+
+	// The oracle can be ahead of what its node reports as finalized, eg just after the
+	// deployment or if the node reports an older slot than before. Its not behind then.
+	if latestProcessedSlot >= finalizedSlot {
+		return true
+	}
+	slotsFromFinalized := finalizedSlot - latestProcessedSlot
 
 	// Use this if we want full in sync to latest finalized
 	/*oracleInSync := false
-- 
2.43.0


From 9f3d7f3cf9c5581274d965310cd061be5a0609f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:22 +0000
Subject: [PATCH 07/22] fix: do not divide by zero in the statistics when every
 subscribed validator has two warnings

---
 api/api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/api.go b/api/api.go
index c84ee73..b37ddcc 100644
--- a/api/api.go
+++ b/api/api.go
@@ -352,7 +352,7 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 
 	rewardsPerValidatorPer30Days := big.NewInt(0)
 	totalValidatorsEarning := totalActive + totalYellowCard
-	if totalSubscribed != 0 {
+	if totalValidatorsEarning != 0 {
 		// This metric can be biased if multiple validators exit at once within the month
 		rewardsPerValidatorPer30Days.Div(totalRewardsSent30DaysWei, big.NewInt(0).SetUint64(totalValidatorsEarning))
 	}
-- 
2.43.0


From def0a6fcc8d8d52a0b0ae4536efb5a629cb64665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:07 +0000
Subject: [PATCH 08/22] fix: answer API requests from a copy of the state
 instead of the one being updated

---
 api/api.go       | 93 ++++++++++++++++++++++++++----------------------
 oracle/oracle.go | 49 +++++++++++++++++++++++--
 2 files changed, 96 insertions(+), 46 deletions(-)

diff --git a/api/api.go b/api/api.go
index b37ddcc..89b4321 100644
--- a/api/api.go
+++ b/api/api.go
@@ -282,7 +282,8 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 	totalAccumulatedRewards := big.NewInt(0)
 	totalPendingRewards := big.NewInt(0)
 
-	for _, validator := range m.oracle.State().Validators {
+	state := m.oracle.Snapshot()
+	for _, validator := range state.Validators {
 		if validator.ValidatorStatus == oracle.Active {
 			totalActive++
 		} else if validator.ValidatorStatus == oracle.YellowCard {
@@ -305,19 +306,19 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 	totalDonationsWei := big.NewInt(0)
 
 	// Prevent underflow
-	if uint64(m.oracle.State().LatestProcessedSlot) < SlotsInOneMonth {
+	if uint64(state.LatestProcessedSlot) < SlotsInOneMonth {
 		m.respondError(w, http.StatusInternalServerError, "head slot is lower than slots in a month, this should not happen")
 		return
 	}
 
-	if uint64(m.oracle.State().LatestProcessedBlock) < SlotsInOneMonth {
+	if uint64(state.LatestProcessedBlock) < SlotsInOneMonth {
 		m.respondError(w, http.StatusInternalServerError, "head block is lower than slots in a month, this should not happen")
 		return
 	}
 
 	// Only consider blocks in the last 30 days
-	limitSlot := uint64(m.oracle.State().LatestProcessedSlot) - SlotsInOneMonth
-	limitBlock := uint64(m.oracle.State().LatestProcessedBlock) - SlotsInOneMonth
+	limitSlot := uint64(state.LatestProcessedSlot) - SlotsInOneMonth
+	limitBlock := uint64(state.LatestProcessedBlock) - SlotsInOneMonth
 
 	// Note that in a month we have SlotsInOneMonth slots, but not exactly that amount of blocks. If blocks
 	// are missed we can have less. If blocks are missed we will take into account a time window
@@ -325,7 +326,7 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 
 	totalOkPoolProposalBlocks := uint64(0)
 
-	for _, block := range m.oracle.State().ProposedBlocks {
+	for _, block := range state.ProposedBlocks {
 		// only consider ok pool proposals, since these are the only type of blocks that are shared
 		// across all validators
 		if block.BlockType == oracle.OkPoolProposal {
@@ -339,7 +340,7 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 		}
 	}
 
-	for _, donation := range m.oracle.State().Donations {
+	for _, donation := range state.Donations {
 		totalDonationsWei.Add(totalDonationsWei, donation.DonationAmount)
 
 		// Note that rewards also take donations into account
@@ -357,7 +358,7 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 		rewardsPerValidatorPer30Days.Div(totalRewardsSent30DaysWei, big.NewInt(0).SetUint64(totalValidatorsEarning))
 	}
 
-	totalProposedBlocks := uint64(len(m.oracle.State().ProposedBlocks))
+	totalProposedBlocks := uint64(len(state.ProposedBlocks))
 	avgBlockRewardWei := big.NewInt(0)
 
 	// Avoid division by zero
@@ -369,7 +370,7 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 	totalEffectiveBalance := uint64(0)
 	effectiveBalances := m.Onchain.Validators()
 
-	for _, validator := range m.oracle.State().Validators {
+	for _, validator := range state.Validators {
 		if validator.ValidatorStatus == oracle.Active ||
 			validator.ValidatorStatus == oracle.YellowCard ||
 			validator.ValidatorStatus == oracle.RedCard {
@@ -395,8 +396,8 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 		TotalRedCard:                 totalRedCard,
 		TotalBanned:                  totalBanned,
 		TotalNotSubscribed:           totalNotSubscribed,
-		LatestCheckpointSlot:         m.oracle.State().LatestProcessedSlot,
-		NextCheckpointSlot:           m.oracle.State().LatestProcessedSlot + m.cfg.CheckPointSizeInSlots,
+		LatestCheckpointSlot:         state.LatestProcessedSlot,
+		NextCheckpointSlot:           state.LatestProcessedSlot + m.cfg.CheckPointSizeInSlots,
 		TotalAccumulatedRewardsWei:   totalAccumulatedRewards.String(),
 		TotalPendingRewaradsWei:      totalPendingRewards.String(),
 		TotalRewardsSentWei:          totalRewardsSentWei.String(),
@@ -405,8 +406,8 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 		TotalRewardsSent30DaysWei:    totalRewardsSent30DaysWei.String(),
 		RewardsPerValidatorPer30Days: rewardsPerValidatorPer30Days.String(),
 		TotalProposedBlocks:          totalProposedBlocks,
-		TotalMissedBlocks:            uint64(len(m.oracle.State().MissedBlocks)),
-		TotalWrongFeeBlocks:          uint64(len(m.oracle.State().WrongFeeBlocks)),
+		TotalMissedBlocks:            uint64(len(state.MissedBlocks)),
+		TotalWrongFeeBlocks:          uint64(len(state.WrongFeeBlocks)),
 		TotalEffectiveBalanceGwei:    fmt.Sprintf("%d", totalEffectiveBalance),
 		AvgEffectiveBalanceGwei:      fmt.Sprintf("%d", avgEffectiveBalance),
 	})
@@ -464,12 +465,13 @@ func (m *ApiService) handleStatus(w http.ResponseWriter, req *http.Request) {
 
 	// The finalized slot can be lower than the processed one, if the node reports
 	// an older slot than before
+	state := m.oracle.Snapshot()
 	oracleSync := false
 	oracleHeadDistance := uint64(0)
-	if m.oracle.State().LatestProcessedSlot >= finalizedSlot {
+	if state.LatestProcessedSlot >= finalizedSlot {
 		oracleSync = true
 	} else {
-		oracleHeadDistance = finalizedSlot - m.oracle.State().LatestProcessedSlot
+		oracleHeadDistance = finalizedSlot - state.LatestProcessedSlot
 	}
 
 	_, onchainSlot, err := m.Onchain.GetOnchainSlotAndRoot(apiRetryOpts...)
@@ -494,8 +496,8 @@ func (m *ApiService) handleStatus(w http.ResponseWriter, req *http.Request) {
 		IsConsensusInSync:           consInSync,
 		IsExecutionInSync:           execInSync,
 		IsOracleInSync:              oracleSync,
-		LatestProcessedSlot:         m.oracle.State().LatestProcessedSlot,
-		LatestProcessedBlock:        m.oracle.State().LatestProcessedBlock,
+		LatestProcessedSlot:         state.LatestProcessedSlot,
+		LatestProcessedBlock:        state.LatestProcessedBlock,
 		LatestFinalizedEpoch:        finalizedSlot / 32,
 		LatestFinalizedSlot:         finalizedSlot,
 		OracleHeadDistance:          oracleHeadDistance,
@@ -537,7 +539,7 @@ func (m *ApiService) handleMemoryValidators(w http.ResponseWriter, req *http.Req
 		m.respondError(w, http.StatusServiceUnavailable, "Oracle node is currently syncing and not serving requests")
 		return
 	}
-	validators := maps.Values(m.oracle.State().Validators)
+	validators := maps.Values(m.oracle.Snapshot().Validators)
 
 	// Order by index
 	sort.Slice(validators, func(i, j int) bool { return validators[i].ValidatorIndex < validators[j].ValidatorIndex })
@@ -582,7 +584,7 @@ func (m *ApiService) handleMemoryValidatorInfo(w http.ResponseWriter, req *http.
 		return
 	}
 
-	validator, found := m.oracle.State().Validators[valIndex]
+	validator, found := m.oracle.Snapshot().Validators[valIndex]
 	if !found {
 		m.respondError(w, http.StatusBadRequest, fmt.Sprint("could not find validator with index: ", valIndex))
 		return
@@ -629,8 +631,9 @@ func (m *ApiService) handleMemoryValidatorsByIndex(w http.ResponseWriter, req *h
 	var notFoundValidators []uint64
 
 	// Check if each validator is in the oracle state. Append to foundValidators or notFoundValidators
+	state := m.oracle.Snapshot()
 	for _, index := range indices {
-		if validator, found := m.oracle.State().Validators[index]; found {
+		if validator, found := state.Validators[index]; found {
 			// Convert ValidatorInfo to httpOkValidatorInfo. This is done to return strings instead of bigInts
 			beaconState, found := m.Onchain.Validators()[phase0.ValidatorIndex(validator.ValidatorIndex)]
 			if !found {
@@ -727,8 +730,9 @@ func (m *ApiService) handleMemoryValidatorsByWithdrawal(w http.ResponseWriter, r
 	// 2) Get all tracked validators for that withdrawal address (tracked)
 	validatorsCopy := make(map[uint64]*oracle.ValidatorInfo)
 
+	state := m.oracle.Snapshot()
 	// Imporant! This is a deep copy, otherwise we will modify the state
-	utils.DeepCopy(m.oracle.State().Validators, &validatorsCopy)
+	utils.DeepCopy(state.Validators, &validatorsCopy)
 	for valIndex, validator := range validatorsCopy {
 		// Just overwrite the untracked validators with oracle state
 		if AreAddressEqual(validator.WithdrawalAddress, withdrawalAddress) {
@@ -755,12 +759,12 @@ func (m *ApiService) handleMemoryValidatorsByWithdrawal(w http.ResponseWriter, r
 	// This applies a non-finalized state to the validators, creating a virtual state
 	// only used for the api.
 
-	if m.oracle.State().LatestProcessedBlock == 0 {
+	if state.LatestProcessedBlock == 0 {
 		m.respondError(w, http.StatusInternalServerError, "latest processed block is 0, try again later")
 		return
 	}
 
-	firstNotProcessedBlock := m.oracle.State().LatestProcessedBlock + 1
+	firstNotProcessedBlock := state.LatestProcessedBlock + 1
 
 	// TODO: Cache this, very inneficient to get it every time
 	allSubsTillHead, err := m.GetSubscriptionsTillHead(firstNotProcessedBlock)
@@ -810,10 +814,11 @@ func (m *ApiService) handleMemoryValidatorsByWithdrawal(w http.ResponseWriter, r
 }
 
 func (m *ApiService) handleMemoryFeesInfo(w http.ResponseWriter, req *http.Request) {
+	state := m.oracle.Snapshot()
 	m.respondOK(w, httpOkMemoryFeesInfo{
-		PoolFeesPercentOver10000: m.oracle.State().PoolFeesPercentOver10000,
-		PoolFeesAddress:          m.oracle.State().PoolFeesAddress,
-		PoolAccumulatedFees:      m.oracle.State().PoolAccumulatedFees.String(),
+		PoolFeesPercentOver10000: state.PoolFeesPercentOver10000,
+		PoolFeesAddress:          state.PoolFeesAddress,
+		PoolAccumulatedFees:      state.PoolAccumulatedFees.String(),
 	})
 }
 
@@ -821,7 +826,8 @@ func (m *ApiService) handleMemoryAllBlocks(w http.ResponseWriter, req *http.Requ
 	// Concat all the blocks, order is not guaranteed
 	allBlocks := make([]httpOkBlock, 0)
 
-	for _, block := range m.oracle.State().ProposedBlocks {
+	state := m.oracle.Snapshot()
+	for _, block := range state.ProposedBlocks {
 		allBlocks = append(allBlocks, httpOkBlock{
 			Slot:              block.Slot,
 			Block:             block.Block,
@@ -834,7 +840,7 @@ func (m *ApiService) handleMemoryAllBlocks(w http.ResponseWriter, req *http.Requ
 		})
 	}
 
-	for _, block := range m.oracle.State().MissedBlocks {
+	for _, block := range state.MissedBlocks {
 		allBlocks = append(allBlocks, httpOkBlock{
 			Slot:              block.Slot,
 			Block:             block.Block,
@@ -847,7 +853,7 @@ func (m *ApiService) handleMemoryAllBlocks(w http.ResponseWriter, req *http.Requ
 		})
 	}
 
-	for _, block := range m.oracle.State().WrongFeeBlocks {
+	for _, block := range state.WrongFeeBlocks {
 		allBlocks = append(allBlocks, httpOkBlock{
 			Slot:              block.Slot,
 			Block:             block.Block,
@@ -865,7 +871,7 @@ func (m *ApiService) handleMemoryAllBlocks(w http.ResponseWriter, req *http.Requ
 
 func (m *ApiService) handleMemoryProposedBlocks(w http.ResponseWriter, req *http.Request) {
 	proposedBlocks := make([]httpOkBlock, 0)
-	for _, block := range m.oracle.State().ProposedBlocks {
+	for _, block := range m.oracle.Snapshot().ProposedBlocks {
 		proposedBlocks = append(proposedBlocks, httpOkBlock{
 			Slot:              block.Slot,
 			Block:             block.Block,
@@ -882,7 +888,7 @@ func (m *ApiService) handleMemoryProposedBlocks(w http.ResponseWriter, req *http
 
 func (m *ApiService) handleMemoryMissedBlocks(w http.ResponseWriter, req *http.Request) {
 	missedBlocks := make([]httpOkBlock, 0)
-	for _, block := range m.oracle.State().MissedBlocks {
+	for _, block := range m.oracle.Snapshot().MissedBlocks {
 		missedBlocks = append(missedBlocks, httpOkBlock{
 			Slot:              block.Slot,
 			Block:             block.Block,
@@ -899,7 +905,7 @@ func (m *ApiService) handleMemoryMissedBlocks(w http.ResponseWriter, req *http.R
 
 func (m *ApiService) handleMemoryWrongFeeBlocks(w http.ResponseWriter, req *http.Request) {
 	wrongFeeBlocks := make([]httpOkBlock, 0)
-	for _, block := range m.oracle.State().WrongFeeBlocks {
+	for _, block := range m.oracle.Snapshot().WrongFeeBlocks {
 		wrongFeeBlocks = append(wrongFeeBlocks, httpOkBlock{
 			Slot:              block.Slot,
 			Block:             block.Block,
@@ -916,7 +922,7 @@ func (m *ApiService) handleMemoryWrongFeeBlocks(w http.ResponseWriter, req *http
 
 func (m *ApiService) handleMemoryDonations(w http.ResponseWriter, req *http.Request) {
 	donations := make([]httpOkDonation, 0)
-	for _, donation := range m.oracle.State().Donations {
+	for _, donation := range m.oracle.Snapshot().Donations {
 		donations = append(donations, httpOkDonation{
 			AmountWei: donation.DonationAmount.String(),
 			Block:     donation.Raw.BlockNumber,
@@ -950,29 +956,30 @@ func (m *ApiService) handleOnchainMerkleProof(w http.ResponseWriter, req *http.R
 		return
 	}
 
-	_, found := m.oracle.State().CommitedStates[contractSlot]
+	state := m.oracle.Snapshot()
+	_, found := state.CommitedStates[contractSlot]
 	if !found {
 		m.respondError(w, http.StatusInternalServerError, "could not find onchain slot in oracle state: "+strconv.FormatUint(contractSlot, 10))
 		return
 	}
 
 	// Check if the oracle root matches the one offchain
-	if contractRoot != m.oracle.State().CommitedStates[contractSlot].MerkleRoot {
+	if contractRoot != state.CommitedStates[contractSlot].MerkleRoot {
 		m.respondError(w, http.StatusInternalServerError,
 			"contract merkle root does not match oracle state: "+
-				contractRoot+" vs "+m.oracle.State().CommitedStates[contractSlot].MerkleRoot)
+				contractRoot+" vs "+state.CommitedStates[contractSlot].MerkleRoot)
 		return
 	}
 
 	// Get the proofs of this withdrawal address (to be used onchain to claim rewards)
-	proofs, proofFound := m.oracle.State().CommitedStates[contractSlot].Proofs[withdrawalAddress]
+	proofs, proofFound := state.CommitedStates[contractSlot].Proofs[withdrawalAddress]
 	if !proofFound {
 		m.respondError(w, http.StatusBadRequest, "could not find proof for WithdrawalAddress: "+withdrawalAddress)
 		return
 	}
 
 	// Get the leafs of this withdrawal address (to be used onchain to claim rewards)
-	leafs, leafsFound := m.oracle.State().CommitedStates[contractSlot].Leafs[withdrawalAddress]
+	leafs, leafsFound := state.CommitedStates[contractSlot].Leafs[withdrawalAddress]
 	if !leafsFound {
 		m.respondError(w, http.StatusBadRequest, "could not find leafs for WithdrawalAddress: "+withdrawalAddress)
 		return
@@ -980,7 +987,7 @@ func (m *ApiService) handleOnchainMerkleProof(w http.ResponseWriter, req *http.R
 
 	// Get validators that are registered to this withdrawal address in the pool
 	registeredValidators := make([]uint64, 0)
-	for valIndex, validator := range m.oracle.State().CommitedStates[contractSlot].Validators {
+	for valIndex, validator := range state.CommitedStates[contractSlot].Validators {
 		if strings.ToLower(validator.WithdrawalAddress) == strings.ToLower(withdrawalAddress) {
 			registeredValidators = append(registeredValidators, valIndex)
 		}
@@ -994,7 +1001,7 @@ func (m *ApiService) handleOnchainMerkleProof(w http.ResponseWriter, req *http.R
 
 	totalPending := big.NewInt(0)
 
-	for _, validator := range m.oracle.State().CommitedStates[contractSlot].Validators {
+	for _, validator := range state.CommitedStates[contractSlot].Validators {
 		if strings.ToLower(validator.WithdrawalAddress) == strings.ToLower(withdrawalAddress) {
 			totalPending.Add(totalPending, validator.PendingRewardsWei)
 		}
@@ -1003,8 +1010,8 @@ func (m *ApiService) handleOnchainMerkleProof(w http.ResponseWriter, req *http.R
 	m.respondOK(w, httpOkProofs{
 		LeafWithdrawalAddress:      leafs.WithdrawalAddress,
 		LeafAccumulatedBalance:     leafs.AccumulatedBalanceWei.String(),
-		MerkleRoot:                 m.oracle.State().CommitedStates[contractSlot].MerkleRoot,
-		CheckpointSlot:             m.oracle.State().CommitedStates[contractSlot].Slot,
+		MerkleRoot:                 state.CommitedStates[contractSlot].MerkleRoot,
+		CheckpointSlot:             state.CommitedStates[contractSlot].Slot,
 		Proofs:                     proofs,
 		RegisteredValidators:       registeredValidators,
 		TotalAccumulatedRewardsWei: leafs.AccumulatedBalanceWei.String(),
@@ -1273,7 +1280,7 @@ func (m *ApiService) OracleReady(maxSlotsBehind uint64) bool {
 		return false
 	}
 
-	latestProcessedSlot := m.oracle.State().LatestProcessedSlot
+	latestProcessedSlot := m.oracle.Snapshot().LatestProcessedSlot
 
 	// The oracle can be ahead of what its node reports as finalized, eg just after the
 	// deployment or if the node reports an older slot than before. Its not behind then.
diff --git a/oracle/oracle.go b/oracle/oracle.go
index c8e5294..ffe0670 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -119,6 +119,49 @@ func (or *Oracle) State() *OracleState {
 	return or.state
 }
 
+// Returns a copy of the state of the oracle. The state returned by State() keeps changing
+// while slots are processed, so a copy has to be used to read it from any other goroutine
+// than the one processing the slots.
+func (or *Oracle) Snapshot() *OracleState {
+	or.mutex.RLock()
+	defer or.mutex.RUnlock()
+	return or.snapshotLockFree()
+}
+
+func (or *Oracle) snapshotLockFree() *OracleState {
+	copyInt := func(value *big.Int) *big.Int {
+		if value == nil {
+			return nil
+		}
+		return new(big.Int).Set(value)
+	}
+
+	// Events, donations and blocks are only appended, so its enough to copy the slices
+	snapshot := *or.state
+	snapshot.PoolAccumulatedFees = copyInt(or.state.PoolAccumulatedFees)
+
+	if or.state.Validators != nil {
+		snapshot.Validators = make(map[uint64]*ValidatorInfo, len(or.state.Validators))
+		for valIndex, validator := range or.state.Validators {
+			validatorCopy := *validator
+			validatorCopy.AccumulatedRewardsWei = copyInt(validator.AccumulatedRewardsWei)
+			validatorCopy.PendingRewardsWei = copyInt(validator.PendingRewardsWei)
+			validatorCopy.CollateralWei = copyInt(validator.CollateralWei)
+			snapshot.Validators[valIndex] = &validatorCopy
+		}
+	}
+
+	// Commited states never change once they are frozen
+	if or.state.CommitedStates != nil {
+		snapshot.CommitedStates = make(map[uint64]*OnchainState, len(or.state.CommitedStates))
+		for slot, commitedState := range or.state.CommitedStates {
+			snapshot.CommitedStates[slot] = commitedState
+		}
+	}
+
+	return &snapshot
+}
+
 // Returns wether a checkpoint has been reached or not. A checkpoint is reached
 // when CheckPointSizeInSlots have passed from the last checkpoint
 func (or *Oracle) IsCheckpoint() (bool, error) {
@@ -143,18 +186,18 @@ func (or *Oracle) IsCheckpoint() (bool, error) {
 	return false, nil
 }
 
-// Returns the state of the oracle, recalculating the hash of the state for
+// Returns a copy of the state of the oracle, recalculating the hash of the state for
 // verification purposes
 func (or *Oracle) StateWithHash() (*OracleState, error) {
 	or.mutex.Lock()
+	defer or.mutex.Unlock()
 
 	// Update hash
 	err := or.hashStateLockFree()
 	if err != nil {
 		return nil, errors.Wrap(err, "error hashing the oracle state")
 	}
-	or.mutex.Unlock()
-	return or.State(), nil
+	return or.snapshotLockFree(), nil
 }
 
 // Given a previous or.state, this function applies the new block to it, updating the or.state
-- 
2.43.0


From 53ae0f0051600f9e86a0572a0172589070362a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:11 +0000
Subject: [PATCH 09/22] fix: do not take the read lock twice, it deadlocks if a
 writer waits in between

---
 oracle/oracle.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index ffe0670..af02f07 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -167,7 +167,7 @@ func (or *Oracle) snapshotLockFree() *OracleState {
 func (or *Oracle) IsCheckpoint() (bool, error) {
 	or.mutex.RLock()
 	defer or.mutex.RUnlock()
-	latestProcSlot := or.State().LatestProcessedSlot
+	latestProcSlot := or.state.LatestProcessedSlot
 
 	if latestProcSlot == 0 {
 		return false, errors.New(
@@ -826,12 +826,15 @@ func (or *Oracle) FreezeCheckpoint() bool {
 func (or *Oracle) LatestCommitedSlot() (uint64, bool) {
 	or.mutex.RLock()
 	defer or.mutex.RUnlock()
+	return or.latestCommitedSlotLockFree()
+}
 
-	if len(or.State().CommitedStates) == 0 {
+func (or *Oracle) latestCommitedSlotLockFree() (uint64, bool) {
+	if len(or.state.CommitedStates) == 0 {
 		return 0, false
 	}
 	latestCommitedSlot := uint64(0)
-	for slot, _ := range or.State().CommitedStates {
+	for slot, _ := range or.state.CommitedStates {
 		if slot > latestCommitedSlot {
 			latestCommitedSlot = slot
 		}
@@ -844,14 +847,14 @@ func (or *Oracle) LatestCommitedState() *OnchainState {
 	or.mutex.RLock()
 	defer or.mutex.RUnlock()
 
-	latestCommitedSlot, atLeastOne := or.LatestCommitedSlot()
+	latestCommitedSlot, atLeastOne := or.latestCommitedSlotLockFree()
 
 	// If we havent commited any state yet
 	if !atLeastOne {
 		return nil
 	}
 
-	return or.State().CommitedStates[latestCommitedSlot]
+	return or.state.CommitedStates[latestCommitedSlot]
 }
 
 // Check if the oracle is in sync with a given root and slot. Its considered in sync
-- 
2.43.0


From ae4efdefcf7bcce65b7020c691982350b02ea814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:00 +0000
Subject: [PATCH 10/22] fix: write state files atomically

---
 oracle/oracle.go | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index af02f07..289661e 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -574,7 +574,7 @@ func (or *Oracle) SaveToJson(saveSlot bool) error {
 
 	log.Trace("Saving state to file:", fmt.Sprintf("%s", jsonData))
 
-	err = ioutil.WriteFile(path, jsonData, 0644)
+	err = writeFileAtomic(path, jsonData)
 	if err != nil {
 		return errors.Wrap(err, "could not write file")
 	}
@@ -600,7 +600,7 @@ func (or *Oracle) SaveToJson(saveSlot bool) error {
 			"FileName":            filename,
 		}).Info("Storing also a copy of the state")
 
-		err = ioutil.WriteFile(path, jsonData, 0644)
+		err = writeFileAtomic(path, jsonData)
 		if err != nil {
 			return errors.Wrap(err, "could not write file")
 		}
@@ -609,6 +609,34 @@ func (or *Oracle) SaveToJson(saveSlot bool) error {
 	return nil
 }
 
+// Writes a file so that after a crash at any point it has either its previous
+// content or the new one, never a part of it. The content goes to a temporary
+// file first, that replaces the original once it is safely stored.
+func writeFileAtomic(path string, data []byte) error {
+	file, err := os.CreateTemp(filepath.Dir(path), filepath.Base(path)+".tmp*")
+	if err != nil {
+		return err
+	}
+
+	_, err = file.Write(data)
+	if err == nil {
+		err = file.Chmod(0644)
+	}
+	if err == nil {
+		err = file.Sync()
+	}
+	if errClose := file.Close(); err == nil {
+		err = errClose
+	}
+	if err == nil {
+		err = os.Rename(file.Name(), path)
+	}
+	if err != nil {
+		os.Remove(file.Name())
+	}
+	return err
+}
+
 // Loads the oracle state from a human readable json file. Multiple
 // check are performed to ensure the state is valid such as checking
 // the hash of the state and ensuring the configuation has not changed
-- 
2.43.0


From d765005d67cd69e84209079bb9174d975583ae33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:49 +0000
Subject: [PATCH 11/22] fix: take a block as missed only if the node answers
 404, not if an error mentions it

---
 oracle/onchain.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oracle/onchain.go b/oracle/onchain.go
index 499084d..b4216e0 100644
--- a/oracle/onchain.go
+++ b/oracle/onchain.go
@@ -234,7 +234,8 @@ func (o *Onchain) GetConsensusBlockAtSlot(slot uint64, opts ...retry.Option) (*s
 			// Its not possible to detect if the block was missed or if the block doesn't exist in the chain
 			// GET failed with status 404: {"code":404,"message":"NOT_FOUND: beacon block at slot 7408169","stacktraces":[]}
 			// To keep compatibility after go-eth2-client changes, we consider that a missed block is nil
-			if strings.Contains(err.Error(), "404") {
+			var apiErr *api.Error
+			if errors.As(err, &apiErr) && apiErr.StatusCode == normalHttp.StatusNotFound {
 				signedBeaconBlock = &api.Response[*spec.VersionedSignedBeaconBlock]{
 					Data: nil,
 				}
-- 
2.43.0


From 6f863e7b07889eecfd63a342b1593b54321c8eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:11 +0000
Subject: [PATCH 12/22] fix: do not take a reverted report or a mismatched hash
 or chain id as a success

errors.Wrap returns nil for a nil error. A report that reverts because its
slot was just consolidated by others is still expected.
---
 main.go           | 8 +++++++-
 oracle/block.go   | 2 +-
 oracle/onchain.go | 5 ++---
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/main.go b/main.go
index 6b6b828..22881a4 100644
--- a/main.go
+++ b/main.go
@@ -445,7 +445,13 @@ func mainLoop(oracleInstance *oracle.Oracle, onchain *oracle.Onchain, cfg *oracl
 						// In this case it would be expected to fail, but note that the above delay should
 						// prevent this from happening.
 						// Example: "DappnodeSmoothingPool::submitReport: Slot number invalid"
-						if strings.Contains(err.Error(), "DappnodeSmoothingPool::submitReport: Slot number invalid") {
+						// The tx may also be mined after that last vote and revert, so check if the slot is consolidated.
+						_, onchainSlot, errSlot := onchain.GetOnchainSlotAndRoot()
+						if errSlot != nil {
+							log.Fatal("Could not get onchain slot and root: ", errSlot)
+						}
+						if strings.Contains(err.Error(), "DappnodeSmoothingPool::submitReport: Slot number invalid") ||
+							onchainSlot >= newState.Slot {
 							log.WithFields(log.Fields{
 								"Error": err,
 								"Root":  newState.MerkleRoot,
diff --git a/oracle/block.go b/oracle/block.go
index e95fff8..0eeb238 100644
--- a/oracle/block.go
+++ b/oracle/block.go
@@ -512,7 +512,7 @@ func (b *FullBlock) GetProposerTip() (*big.Int, error) {
 			return nil, errors.Wrap(err, "could not decode tx")
 		}
 		if tx.Hash() != b.ExecutionReceipts[i].TxHash {
-			return nil, errors.Wrap(err, "tx hash does not match receipt hash")
+			return nil, errors.New("tx hash does not match receipt hash")
 		}
 
 		tipFee := new(big.Int)
diff --git a/oracle/onchain.go b/oracle/onchain.go
index b4216e0..69125c8 100644
--- a/oracle/onchain.go
+++ b/oracle/onchain.go
@@ -115,7 +115,7 @@ func NewOnchain(cliCfg *config.CliConfig, updaterKey *ecdsa.PrivateKey) (*Onchai
 		" DepositContract: ", "0x"+hex.EncodeToString(depositContract.Data.Address[:]))
 
 	if depositContract.Data.ChainID != uint64(chainId.Int64()) {
-		return nil, errors.Wrap(err, fmt.Sprintf("Consensus and execution clients are not connected to the same chain %d vs %d",
+		return nil, errors.New(fmt.Sprintf("Consensus and execution clients are not connected to the same chain %d vs %d",
 			depositContract.Data.ChainID, chainId))
 	}
 
@@ -1819,8 +1819,7 @@ func (o *Onchain) UpdateContractMerkleRoot(slot uint64, newMerkleRoot string) er
 				tx.Hash().Hex()))
 	}
 	if receipt.Status != types.ReceiptStatusSuccessful {
-		return errors.Wrap(err,
-			fmt.Sprintf("tx failed err: %d hash: %s", receipt.Status, tx.Hash().Hex()))
+		return errors.New(fmt.Sprintf("tx failed err: %d hash: %s", receipt.Status, tx.Hash().Hex()))
 	}
 
 	// Tx was sent and validated correctly, print receipt info
-- 
2.43.0


From 12caf05fe20f5bf7ef08dc3e5759beb8df89eda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:13 +0000
Subject: [PATCH 13/22] fix: stop waiting for a report once the contract
 consolidated a later one

---
 main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/main.go b/main.go
index 22881a4..ee2e129 100644
--- a/main.go
+++ b/main.go
@@ -477,6 +477,9 @@ func mainLoop(oracleInstance *oracle.Oracle, onchain *oracle.Onchain, cfg *oracl
 								"OracleSlot":  newState.Slot,
 							}).Info("The submitted state is now consolidated in the contract")
 							break
+						} else if onchainSlot > newState.Slot {
+							log.Info("A later state is already consolidated in the contract")
+							break
 						} else {
 							log.Info("Submitted merkle root is not consolidated, waiting for other oracles to update it")
 							time.Sleep(1 * time.Minute)
-- 
2.43.0


From 5c16b3be4ddada23b64b9ec55fc04997b053bd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:17 +0000
Subject: [PATCH 14/22] fix: commit a checkpoint that a termination signal left
 uncommited

---
 main.go          |  8 +++++++-
 oracle/oracle.go | 15 +++++++++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index ee2e129..043d7cf 100644
--- a/main.go
+++ b/main.go
@@ -232,6 +232,10 @@ func mainLoop(oracleInstance *oracle.Oracle, onchain *oracle.Onchain, cfg *oracl
 		"NextSlotToProcess":   oracleInstance.State().NextSlotToProcess,
 	}).Info("Processing, see api for progress")
 
+	// A termination signal may save the state of a checkpoint slot just before the
+	// checkpoint is commited. If so, commit it before processing further slots.
+	commitPending := oracleInstance.IsCheckpointPending()
+
 	for {
 		// Ensure that the nodes we are using are in sync with the blockchain (consensus + execution)
 		inSync, err := onchain.AreNodesInSync()
@@ -253,7 +257,9 @@ func mainLoop(oracleInstance *oracle.Oracle, onchain *oracle.Onchain, cfg *oracl
 
 		finalizedSlot := uint64(finalizedBlockHeader.Header.Message.Slot)
 
-		if finalizedSlot >= oracleInstance.State().NextSlotToProcess {
+		if commitPending {
+			commitPending = false
+		} else if finalizedSlot >= oracleInstance.State().NextSlotToProcess {
 
 			// Fetch block information
 			fullBlock := onchain.FetchFullBlock(oracleInstance.State().NextSlotToProcess, oracleInstance)
diff --git a/oracle/oracle.go b/oracle/oracle.go
index 289661e..b5d72e9 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -186,6 +186,21 @@ func (or *Oracle) IsCheckpoint() (bool, error) {
 	return false, nil
 }
 
+// Returns if the latest processed slot is a checkpoint that was not commited yet
+func (or *Oracle) IsCheckpointPending() bool {
+	or.mutex.RLock()
+	defer or.mutex.RUnlock()
+	latestProcSlot := or.state.LatestProcessedSlot
+
+	if latestProcSlot < or.cfg.DeployedSlot ||
+		(latestProcSlot-or.cfg.DeployedSlot)%or.cfg.CheckPointSizeInSlots != 0 {
+		return false
+	}
+
+	_, commited := or.state.CommitedStates[latestProcSlot]
+	return !commited
+}
+
 // Returns a copy of the state of the oracle, recalculating the hash of the state for
 // verification purposes
 func (or *Oracle) StateWithHash() (*OracleState, error) {
-- 
2.43.0


From 83aa121a9ac9d1f6aea250c7d8e12f98ad7683f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:36 +0000
Subject: [PATCH 15/22] fix: do not sync from scratch if the state file exists
 but cannot be opened

---
 oracle/oracle.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index b5d72e9..5e9b683 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -668,12 +668,15 @@ func (or *Oracle) LoadFromPath(path string) (bool, error) {
 	log.Info("Loading oracle state from json file: ", path)
 
 	jsonFile, err := os.Open(path)
-	defer jsonFile.Close()
 
 	// Dont error if the file wasnt found, just return not found
-	if err != nil {
+	if os.IsNotExist(err) {
 		return false, nil
 	}
+	if err != nil {
+		return false, errors.Wrap(err, "could not open json file")
+	}
+	defer jsonFile.Close()
 
 	byteValue, err := ioutil.ReadAll(jsonFile)
 	if err != nil {
-- 
2.43.0


From 742a5a0167fb6b842eee5f8a4d61a6ec4e99c80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:40 +0000
Subject: [PATCH 16/22] fix: accept a state from before a scheduled fee change
 after loading one from after it

---
 oracle/oracle.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index 5e9b683..34b376a 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -34,6 +34,7 @@ type GetPendingConsolidationsFunc func(stateID string, opts ...retry.Option) (*P
 
 type Oracle struct {
 	cfg                      *Config
+	initialPoolFee           int
 	state                    *OracleState
 	mutex                    sync.RWMutex
 	getSetOfValidators       GetSetOfValidatorsFunc
@@ -95,6 +96,7 @@ func NewOracle(cfg *Config) *Oracle {
 
 	oracle := &Oracle{
 		cfg:                      cfg,
+		initialPoolFee:           cfg.PoolFeesPercentOver10000,
 		state:                    state,
 		getSetOfValidators:       nil,
 		getPendingConsolidations: nil,
@@ -736,13 +738,15 @@ func (or *Oracle) LoadFromBytes(rawBytes []byte) (bool, error) {
 			state.PoolFeesAddress, or.cfg.PoolFeesAddress))
 	}
 
-	if state.PoolFeesPercentOver10000 != or.cfg.PoolFeesPercentOver10000 {
-		// The config starts at initialPoolFee. If the state was saved after a
-		// scheduled fee change, apply the schedule up to the state's slot.
-		applyFeeScheduleUpTo(or.cfg, state.LatestProcessedSlot)
-		if state.PoolFeesPercentOver10000 != or.cfg.PoolFeesPercentOver10000 {
+	// The config starts at initialPoolFee. If the state was saved after a
+	// scheduled fee change, apply the schedule up to the state's slot.
+	stateCfg := *or.cfg
+	stateCfg.PoolFeesPercentOver10000 = or.initialPoolFee
+	if state.PoolFeesPercentOver10000 != stateCfg.PoolFeesPercentOver10000 {
+		applyFeeScheduleUpTo(&stateCfg, state.LatestProcessedSlot)
+		if state.PoolFeesPercentOver10000 != stateCfg.PoolFeesPercentOver10000 {
 			return false, errors.New(fmt.Sprintf("pool fees percent mismatch, recovered: %d, expected: %d",
-				state.PoolFeesPercentOver10000, or.cfg.PoolFeesPercentOver10000))
+				state.PoolFeesPercentOver10000, stateCfg.PoolFeesPercentOver10000))
 		}
 	}
 
@@ -766,6 +770,7 @@ func (or *Oracle) LoadFromBytes(rawBytes []byte) (bool, error) {
 			state.DeployedSlot, or.cfg.DeployedSlot))
 	}
 
+	or.cfg.PoolFeesPercentOver10000 = state.PoolFeesPercentOver10000
 	or.state = &state
 
 	mRoot, enoughData := or.getMerkleRootIfAny()
-- 
2.43.0


From d43ea21f51400241f762a89d9d26c26628a9a4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:11 +0000
Subject: [PATCH 17/22] fix: sync from the beginning instead of stopping if
 there is no older state to go back to

---
 main.go          |  4 +++-
 oracle/oracle.go | 30 +++++++++++++++++++++---------
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/main.go b/main.go
index 043d7cf..8cdd6af 100644
--- a/main.go
+++ b/main.go
@@ -185,7 +185,9 @@ func main() {
 				log.Fatal("Critical error loading state from json: ", err)
 			}
 			if !found {
-				log.Fatal("Could not find a save state for slot ", onchainSlot)
+				log.Warn("Could not find a saved state for slot ", onchainSlot,
+					", syncing from the begining slot=", oracleInstance.State().DeployedSlot)
+				oracleInstance.ResetState()
 			}
 		}
 	}
diff --git a/oracle/oracle.go b/oracle/oracle.go
index 34b376a..5b7dc3a 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -67,7 +67,20 @@ var SlotElectraFork = map[string]uint64{
 }
 
 func NewOracle(cfg *Config) *Oracle {
-	state := &OracleState{
+	oracle := &Oracle{
+		cfg:                      cfg,
+		initialPoolFee:           cfg.PoolFeesPercentOver10000,
+		state:                    newOracleState(cfg),
+		getSetOfValidators:       nil,
+		getPendingConsolidations: nil,
+	}
+
+	return oracle
+}
+
+// Returns the state of an oracle that has not processed any slot yet
+func newOracleState(cfg *Config) *OracleState {
+	return &OracleState{
 		StateHash:            "",
 		LatestProcessedBlock: 0,
 		LatestProcessedSlot:  cfg.DeployedSlot - 1,
@@ -93,16 +106,15 @@ func NewOracle(cfg *Config) *Oracle {
 		DeployedSlot:             cfg.DeployedSlot,
 		CollateralInWei:          cfg.CollateralInWei,
 	}
+}
 
-	oracle := &Oracle{
-		cfg:                      cfg,
-		initialPoolFee:           cfg.PoolFeesPercentOver10000,
-		state:                    state,
-		getSetOfValidators:       nil,
-		getPendingConsolidations: nil,
-	}
+// Discards the state, so that the oracle syncs from the deployment of the contract
+func (or *Oracle) ResetState() {
+	or.mutex.Lock()
+	defer or.mutex.Unlock()
 
-	return oracle
+	or.cfg.PoolFeesPercentOver10000 = or.initialPoolFee
+	or.state = newOracleState(or.cfg)
 }
 
 func (or *Oracle) SetGetSetOfValidatorsFunc(oc GetSetOfValidatorsFunc) {
-- 
2.43.0


From 03d11c954250e55f6c97401cd9696f376f37a997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 18/22] fix: load the beacon validators before the api that
 reports them starts

---
 main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index 8cdd6af..63fc289 100644
--- a/main.go
+++ b/main.go
@@ -192,6 +192,9 @@ func main() {
 		}
 	}
 
+	// Load all the validators from the beacon chain, the api also needs them
+	onchain.RefreshBeaconValidators()
+
 	api := api.NewApiService(cfg, cliCfg, oracleInstance, onchain)
 
 	metrics.RunMetrics(cliCfg.MetricsPort)
@@ -226,9 +229,6 @@ func mainLoop(oracleInstance *oracle.Oracle, onchain *oracle.Onchain, cfg *oracl
 
 	lastReconciliationTime := int64(0)
 
-	// Load all the validators from the beacon chain
-	onchain.RefreshBeaconValidators()
-
 	log.WithFields(log.Fields{
 		"LatestProcessedSlot": oracleInstance.State().LatestProcessedSlot,
 		"NextSlotToProcess":   oracleInstance.State().NextSlotToProcess,
-- 
2.43.0


From 001029d93b28ef40138959a715c5fd09aebc2d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:05 +0000
Subject: [PATCH 19/22] fix: read the state to log under the lock when saving
 it

SaveToJson went on reading the state after unlocking it, while the api
rewrites its hash (/state) and the main loop advances it.
---
 oracle/oracle.go | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index 5b7dc3a..ac60fcd 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -593,9 +593,22 @@ func (or *Oracle) SaveToJson(saveSlot bool) error {
 	if err != nil {
 		return errors.Wrap(err, "could not marshal state to JSON")
 	}
-	or.mutex.Unlock()
 
+	// Once unlocked, the api or the main loop can change the state
 	path := filepath.Join(StateFolder, StateJsonName)
+	savedSlot := or.state.LatestProcessedSlot
+	savedFields := log.Fields{
+		"LatestProcessedSlot":  or.state.LatestProcessedSlot,
+		"LatestProcessedBlock": or.state.LatestProcessedBlock,
+		"NextSlotToProcess":    or.state.NextSlotToProcess,
+		"TotalValidators":      len(or.state.Validators),
+		"Network":              or.state.Network,
+		"PoolAddress":          or.state.PoolAddress,
+		"Path":                 path,
+		"Hash":                 or.state.StateHash,
+	}
+	or.mutex.Unlock()
+
 	err = os.MkdirAll(StateFolder, os.ModePerm)
 	if err != nil {
 		return errors.Wrap(err, "could not create folder")
@@ -608,24 +621,15 @@ func (or *Oracle) SaveToJson(saveSlot bool) error {
 		return errors.Wrap(err, "could not write file")
 	}
 
-	log.WithFields(log.Fields{
-		"LatestProcessedSlot":  or.state.LatestProcessedSlot,
-		"LatestProcessedBlock": or.state.LatestProcessedBlock,
-		"NextSlotToProcess":    or.state.NextSlotToProcess,
-		"TotalValidators":      len(or.state.Validators),
-		"Network":              or.state.Network,
-		"PoolAddress":          or.state.PoolAddress,
-		"Path":                 path,
-		"Hash":                 or.state.StateHash,
-	}).Info("Saved state to file")
+	log.WithFields(savedFields).Info("Saved state to file")
 
 	// If saveSlot is true, save a copy of the state with the slot number in the file
 	if saveSlot {
-		filename := fmt.Sprintf("state_%d.json", or.State().LatestProcessedSlot)
+		filename := fmt.Sprintf("state_%d.json", savedSlot)
 		path = filepath.Join(StateFolder, filename)
 
 		log.WithFields(log.Fields{
-			"LatestProcessedSlot": or.state.LatestProcessedSlot,
+			"LatestProcessedSlot": savedSlot,
 			"FileName":            filename,
 		}).Info("Storing also a copy of the state")
 
-- 
2.43.0


From 5180331036beb35de4596fe5323597a91706c2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:27 +0000
Subject: [PATCH 20/22] fix: guard the validators the api reads while the main
 loop renews them

---
 oracle/onchain.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/oracle/onchain.go b/oracle/onchain.go
index 69125c8..c8143b1 100644
--- a/oracle/onchain.go
+++ b/oracle/onchain.go
@@ -12,6 +12,7 @@ import (
 	"net/url"
 	"strconv"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/pkg/errors"
@@ -75,6 +76,9 @@ type Onchain struct {
 	ChainId         uint64
 	validators      map[phase0.ValidatorIndex]*v1.Validator
 
+	// The api reads the validators while the main loop renews them
+	validatorsMutex sync.RWMutex
+
 	// Endpoint as configured. The address the consensus client exposes has
 	// its path and credentials masked, so it can't be used to send requests.
 	consensusEndpoint string
@@ -1842,7 +1846,9 @@ func (o *Onchain) RefreshBeaconValidators() {
 	if err != nil {
 		log.Fatal("Could not get validators: ", err)
 	}
+	o.validatorsMutex.Lock()
 	o.validators = vals
+	o.validatorsMutex.Unlock()
 	if len(vals) != 0 {
 		log.WithFields(log.Fields{
 			"TotalValidators":       len(vals),
@@ -1855,6 +1861,8 @@ func (o *Onchain) RefreshBeaconValidators() {
 }
 
 func (o *Onchain) Validators() map[phase0.ValidatorIndex]*v1.Validator {
+	o.validatorsMutex.RLock()
+	defer o.validatorsMutex.RUnlock()
 	return o.validators
 }
 
-- 
2.43.0


From 635ddf84f2fbbebb2987b50a010401455291fda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:09 +0000
Subject: [PATCH 21/22] fix: undo a slot whose validator cleanup failed

---
 oracle/oracle.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index ac60fcd..6869db7 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -265,6 +265,14 @@ func (or *Oracle) AdvanceStateToNextSlot(fullBlock *FullBlock) (uint64, error) {
 			or.state.NextSlotToProcess, " ", summarizedBlock.Slot))
 	}
 
+	// The cleanup fetches data from the node, so it can fail when the rest of the slot was already
+	// applied. In that case the state goes back to how it was before the slot.
+	isCleanupSlot := or.state.NextSlotToProcess%uint64(1200) == 0
+	var stateBeforeSlot *OracleState
+	if isCleanupSlot {
+		stateBeforeSlot = or.snapshotLockFree()
+	}
+
 	// Get donations to the pool in this block
 	blockDonations := fullBlock.GetDonations(or.cfg.PoolAddress)
 
@@ -314,9 +322,10 @@ func (or *Oracle) AdvanceStateToNextSlot(fullBlock *FullBlock) (uint64, error) {
 	// Handle validator cleanup: redisitribute the pending rewards of validators subscribed to the pool
 	// that are not in the beacon chain anymore (exited/slashed). We dont run this on every slot because
 	// its expensive. Runs every 4 hours.
-	if or.state.NextSlotToProcess%uint64(1200) == 0 {
+	if isCleanupSlot {
 		err = or.ValidatorCleanup(or.state.NextSlotToProcess)
 		if err != nil {
+			or.state = stateBeforeSlot
 			return 0, errors.Wrap(err, "could not cleanup validators")
 		}
 	}
-- 
2.43.0


From aed36a4c83d10e4abe2b1df2e8f483187aa6e704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:14 +0000
Subject: [PATCH 22/22] fix: do not panic on a subscription of a validator not
 loaded yet

---
 api/api.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/api/api.go b/api/api.go
index 89b4321..07ee3ee 100644
--- a/api/api.go
+++ b/api/api.go
@@ -1233,7 +1233,9 @@ func (m *ApiService) ApplyNonFinalizedState(
 				eventAddress := subInBlock.Event.Sender.String()
 				if AreAddressEqual(valWithdrawalAddress, eventAddress) {
 					if subInBlock.Event.SubscriptionCollateral.Cmp(m.cfg.CollateralInWei) >= 0 {
-						if oracle.CanValidatorSubscribeToPool(subInBlock.Validator) {
+						// The validator is nil if it appeared in the beacon chain after the
+						// validators were last loaded
+						if subInBlock.Validator != nil && oracle.CanValidatorSubscribeToPool(subInBlock.Validator) {
 							if val.ValidatorStatus == oracle.Untracked || val.ValidatorStatus == oracle.NotSubscribed {
 								validators[valIndex].ValidatorStatus = oracle.Active
 								validators[valIndex].PendingRewardsWei.Add(validators[valIndex].PendingRewardsWei, subInBlock.Event.SubscriptionCollateral)
-- 
2.43.0

