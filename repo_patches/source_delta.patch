From ed943f85542d2420348d6a25d06e656c7bd33d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:50 +0000
Subject: [PATCH 01/25] fix: only one ether received event is the mev reward,
 others with the same amount are donations

---
 oracle/block.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/oracle/block.go b/oracle/block.go
index 228abf7..4429a69 100644
--- a/oracle/block.go
+++ b/oracle/block.go
@@ -573,19 +573,25 @@ func (b *FullBlock) GetDonations(poolAddress string) []*contract.ContractEtherRe
 	}
 
 	// If the pool got an mev reward, we must filter the mev reward
-	// from the event, as thats not considered a donation
-	filteredEvents := make([]*contract.ContractEtherReceived, 0)
-	foundMev := false
-	for _, etherRxEvent := range b.Events.EtherReceived {
+	// from the event, as thats not considered a donation. Only one event is
+	// filtered: donations can have the very same amount. The mev reward is sent
+	// in the last tx of the block, so its event is the last matching one
+	mevEvent := -1
+	for i, etherRxEvent := range b.Events.EtherReceived {
 		if etherRxEvent.DonationAmount.Cmp(mevReward) == 0 {
-			foundMev = true
-			continue
+			mevEvent = i
+		}
+	}
+
+	filteredEvents := make([]*contract.ContractEtherReceived, 0)
+	for i, etherRxEvent := range b.Events.EtherReceived {
+		if i != mevEvent {
+			filteredEvents = append(filteredEvents, etherRxEvent)
 		}
-		filteredEvents = append(filteredEvents, etherRxEvent)
 	}
 
 	// Sanity check
-	if !foundMev {
+	if mevEvent == -1 {
 		log.Fatal("An mev reward was expected but could not find it. "+
 			"Wanted reward: ", mevReward, " Events: ", b.Events.EtherReceived)
 	}
-- 
2.43.0


From 8996a169baf94f0d0e1239c3df87f63cf3c6da55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:50 +0000
Subject: [PATCH 02/25] fix: report an error when a receipt does not match its
 transaction

---
 oracle/block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oracle/block.go b/oracle/block.go
index 4429a69..126a634 100644
--- a/oracle/block.go
+++ b/oracle/block.go
@@ -494,7 +494,7 @@ func (b *FullBlock) GetProposerTip() (*big.Int, error) {
 			return nil, errors.Wrap(err, "could not decode tx")
 		}
 		if tx.Hash() != b.ExecutionReceipts[i].TxHash {
-			return nil, errors.Wrap(err, "tx hash does not match receipt hash")
+			return nil, errors.New("tx hash does not match receipt hash")
 		}
 
 		tipFee := new(big.Int)
-- 
2.43.0


From 0c4783cff89e9827eb687f36a7454c895d6c5a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:50 +0000
Subject: [PATCH 03/25] fix: check the block number of ban and unban events

---
 oracle/block.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/oracle/block.go b/oracle/block.go
index 126a634..be1c2e0 100644
--- a/oracle/block.go
+++ b/oracle/block.go
@@ -200,6 +200,20 @@ func (b *FullBlock) SetEvents(events *Events) {
 		}
 	}
 
+	for _, event := range events.BanValidator {
+		if b.GetBlockNumberBigInt().Uint64() != event.Raw.BlockNumber {
+			log.Fatal("Block number mismatch in banValidator events: ",
+				b.GetBlockNumberBigInt().Uint64(), " vs ", event.Raw.BlockNumber)
+		}
+	}
+
+	for _, event := range events.UnbanValidator {
+		if b.GetBlockNumberBigInt().Uint64() != event.Raw.BlockNumber {
+			log.Fatal("Block number mismatch in unbanValidator events: ",
+				b.GetBlockNumberBigInt().Uint64(), " vs ", event.Raw.BlockNumber)
+		}
+	}
+
 	for _, event := range events.InitSmoothingPool {
 		if b.GetBlockNumberBigInt().Uint64() != event.Raw.BlockNumber {
 			log.Fatal("Block number mismatch in initSmoothingPool events: ",
-- 
2.43.0


From 8727b70a75457e8622786f2dd86a5d9ea97c3713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:50 +0000
Subject: [PATCH 04/25] fix: refuse consensus and execution clients of
 different chains

---
 oracle/onchain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oracle/onchain.go b/oracle/onchain.go
index 1419d49..2bce48e 100644
--- a/oracle/onchain.go
+++ b/oracle/onchain.go
@@ -110,7 +110,7 @@ func NewOnchain(cliCfg *config.CliConfig, updaterKey *ecdsa.PrivateKey) (*Onchai
 		" DepositContract: ", "0x"+hex.EncodeToString(depositContract.Data.Address[:]))
 
 	if depositContract.Data.ChainID != uint64(chainId.Int64()) {
-		return nil, errors.Wrap(err, fmt.Sprintf("Consensus and execution clients are not connected to the same chain %d vs %d",
+		return nil, errors.New(fmt.Sprintf("Consensus and execution clients are not connected to the same chain %d vs %d",
 			depositContract.Data.ChainID, chainId))
 	}
 
-- 
2.43.0


From 07385c5eafa2f861956a1dd0c76818c0f22027da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:50 +0000
Subject: [PATCH 05/25] fix: a reverted root update transaction is an error

---
 oracle/onchain.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oracle/onchain.go b/oracle/onchain.go
index 2bce48e..00e6500 100644
--- a/oracle/onchain.go
+++ b/oracle/onchain.go
@@ -1810,8 +1810,11 @@ func (o *Onchain) UpdateContractMerkleRoot(slot uint64, newMerkleRoot string) er
 			fmt.Sprint("timeout expired waiting for tx to be validated txHash: ",
 				tx.Hash().Hex()))
 	}
+	if err != nil {
+		return errors.Wrap(err, "could not wait for tx to be validated txHash: "+tx.Hash().Hex())
+	}
 	if receipt.Status != types.ReceiptStatusSuccessful {
-		return errors.Wrap(err,
+		return errors.New(
 			fmt.Sprintf("tx failed err: %d hash: %s", receipt.Status, tx.Hash().Hex()))
 	}
 
-- 
2.43.0


From 4b5645419270b1890fc276aef6d86566f36c6b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:26 +0000
Subject: [PATCH 06/25] fix: only a 404 status means a missed block, not any
 error mentioning 404

---
 oracle/onchain.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oracle/onchain.go b/oracle/onchain.go
index 00e6500..71cb7f6 100644
--- a/oracle/onchain.go
+++ b/oracle/onchain.go
@@ -227,7 +227,8 @@ func (o *Onchain) GetConsensusBlockAtSlot(slot uint64, opts ...retry.Option) (*s
 			// Its not possible to detect if the block was missed or if the block doesn't exist in the chain
 			// GET failed with status 404: {"code":404,"message":"NOT_FOUND: beacon block at slot 7408169","stacktraces":[]}
 			// To keep compatibility after go-eth2-client changes, we consider that a missed block is nil
-			if strings.Contains(err.Error(), "404") {
+			var apiErr *api.Error
+			if errors.As(err, &apiErr) && apiErr.StatusCode == normalHttp.StatusNotFound {
 				signedBeaconBlock = &api.Response[*spec.VersionedSignedBeaconBlock]{
 					Data: nil,
 				}
-- 
2.43.0


From 7facd4da267671ad5170f796d4fbae539e4992ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:26 +0000
Subject: [PATCH 07/25] fix: an empty proposal duty cache is not a hit for
 epoch 0

---
 oracle/onchain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oracle/onchain.go b/oracle/onchain.go
index 71cb7f6..d9b3541 100644
--- a/oracle/onchain.go
+++ b/oracle/onchain.go
@@ -486,7 +486,7 @@ func (o *Onchain) GetProposalDuty(slot uint64, opts ...retry.Option) (*v1.Propos
 	slotStr := strconv.FormatUint(slot, 10)
 
 	// If cache hit, return the result
-	if ProposalDutyCache.Epoch == epoch {
+	if ProposalDutyCache.Epoch == epoch && len(ProposalDutyCache.Duties) != 0 {
 		// Sanity check that should never happen
 		if ProposalDutyCache.Epoch != uint64(ProposalDutyCache.Duties[slotWithinEpoch].Slot/phase0.Slot(constants.SlotsInEpoch)) {
 			return nil, errors.New("Proposal duty epoch does not match when converting slot to epoch")
-- 
2.43.0


From cf9faaebcc1df8e62e9af3700750852a77d60c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:50 +0000
Subject: [PATCH 08/25] fix: do not take a partially decoded event list as
 complete

---
 api/api.go        |  8 ++++++++
 oracle/onchain.go | 36 ++++++++++++++++++++++++++++++++++++
 2 files changed, 44 insertions(+)

diff --git a/api/api.go b/api/api.go
index 8c42474..1de1d1c 100644
--- a/api/api.go
+++ b/api/api.go
@@ -1138,6 +1138,10 @@ func (m *ApiService) GetSubscriptionsTillHead(latestProcessedBlock uint64) ([]Su
 		}
 		blockSubscriptions = append(blockSubscriptions, sub)
 	}
+	err = itrSubs.Error()
+	if err != nil {
+		return nil, errors.Wrap(err, "could not iterate subscription events")
+	}
 	err = itrSubs.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close subscription iterator")
@@ -1163,6 +1167,10 @@ func (m *ApiService) GetUnsubscriptionsTillHead(latestProcessedBlock uint64) ([]
 		}
 		blockUnsubscriptions = append(blockUnsubscriptions, unsub)
 	}
+	err = itrUnsubs.Error()
+	if err != nil {
+		return nil, errors.Wrap(err, "could not iterate subscription events")
+	}
 	err = itrUnsubs.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close subscription iterator")
diff --git a/oracle/onchain.go b/oracle/onchain.go
index d9b3541..df994dc 100644
--- a/oracle/onchain.go
+++ b/oracle/onchain.go
@@ -1323,6 +1323,10 @@ func (o *Onchain) GetEtherReceivedEvents(
 	for itr.Next() {
 		events = append(events, itr.Event)
 	}
+	err = itr.Error()
+	if err != nil {
+		return nil, errors.Wrap(err, "could not iterate EtherReceived events")
+	}
 	err = itr.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close EtherReceived iterator")
@@ -1359,6 +1363,10 @@ func (o *Onchain) GetSubscribeValidatorEvents(
 	for itr.Next() {
 		events = append(events, itr.Event)
 	}
+	err = itr.Error()
+	if err != nil {
+		return nil, errors.Wrap(err, "could not iterate SubscribeValidator events")
+	}
 	err = itr.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close SubscribeValidator iterator")
@@ -1414,6 +1422,10 @@ func (o *Onchain) GetUnsubscribeValidatorEvents(
 	for itr.Next() {
 		events = append(events, itr.Event)
 	}
+	err = itr.Error()
+	if err != nil {
+		return nil, errors.Wrap(err, "could not iterate UnsubscribeValidator events")
+	}
 	err = itr.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close UnsubscribeValidator iterator")
@@ -1450,6 +1462,10 @@ func (o *Onchain) GetBanValidatorEvents(
 	for itr.Next() {
 		events = append(events, itr.Event)
 	}
+	err = itr.Error()
+	if err != nil {
+		return nil, errors.Wrap(err, "could not iterate BanValidator events")
+	}
 	err = itr.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close BanValidator iterator")
@@ -1486,6 +1502,10 @@ func (o *Onchain) GetUnbanValidatorEvents(
 	for itr.Next() {
 		events = append(events, itr.Event)
 	}
+	err = itr.Error()
+	if err != nil {
+		return nil, errors.Wrap(err, "could not iterate UnbanValidator events")
+	}
 	err = itr.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close UnbanValidator iterator")
@@ -1531,6 +1551,10 @@ func (o *Onchain) GetUpdatePoolFeeEvents(
 	for itr.Next() {
 		events = append(events, itr.Event)
 	}
+	err = itr.Error()
+	if err != nil {
+		return nil, errors.Wrap(err, "could not iterate ContractUpdatePoolFee events")
+	}
 	err = itr.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close ContractUpdatePoolFee iterator")
@@ -1566,6 +1590,10 @@ func (o *Onchain) GetPoolFeeRecipientEvents(
 	for itr.Next() {
 		events = append(events, itr.Event)
 	}
+	err = itr.Error()
+	if err != nil {
+		return nil, errors.Wrap(err, "could not iterate ContractUpdatePoolFeeRecipient events")
+	}
 	err = itr.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close ContractUpdatePoolFeeRecipient iterator")
@@ -1601,6 +1629,10 @@ func (o *Onchain) GetCheckpointSlotSizeEvents(
 	for itr.Next() {
 		events = append(events, itr.Event)
 	}
+	err = itr.Error()
+	if err != nil {
+		return nil, errors.Wrap(err, "could not iterate ContractUpdateCheckpointSlotSize events")
+	}
 	err = itr.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close ContractUpdateCheckpointSlotSize iterator")
@@ -1636,6 +1668,10 @@ func (o *Onchain) GetUpdateSubscriptionCollateralEvents(
 	for itr.Next() {
 		events = append(events, itr.Event)
 	}
+	err = itr.Error()
+	if err != nil {
+		return nil, errors.Wrap(err, "could not iterate ContractUpdateSubscriptionCollateral events")
+	}
 	err = itr.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close ContractUpdateSubscriptionCollateral iterator")
-- 
2.43.0


From 74be2f639d495e52062e0de0b59d0b2e549ff1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:14 +0000
Subject: [PATCH 09/25] fix: clean up exited validators in a deterministic
 order

---
 oracle/oracle.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index 2aee065..6c7a4f5 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -4,6 +4,7 @@ import (
 	"crypto/sha256"
 	"encoding/hex"
 	"encoding/json"
+	"sort"
 	"strconv"
 
 	"fmt"
@@ -300,7 +301,13 @@ func (or *Oracle) ValidatorCleanup(slot uint64) error {
 		// Iterate over all validators. If two or more validators exit or get slashed in the same slot,
 		// this cleanup will eventually set both of their pending rewards to 0 and share them among the pool
 		rewardsToDistribute := big.NewInt(0)
-		for _, validator := range validatorInfo {
+		// The indices are sorted so that the outcome does not depend on the iteration order of the map
+		sort.Slice(indices, func(i, j int) bool { return indices[i] < indices[j] })
+		for _, index := range indices {
+			validator, found := validatorInfo[index]
+			if !found {
+				continue
+			}
 			// If a validator is subscribed but not active onchain, we have to unsubscribe it and treat it as a ban:
 			// this means setting the validator rewards to 0 and sharing them among the pool
 			idx := uint64(validator.Index)
-- 
2.43.0


From 996bc2fbe626bbb90dfee4b3662c561b1ed9fa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:42 +0000
Subject: [PATCH 10/25] fix: statistics do not divide by zero when no validator
 is earning

---
 api/api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/api.go b/api/api.go
index 1de1d1c..0bd30c8 100644
--- a/api/api.go
+++ b/api/api.go
@@ -352,7 +352,7 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 
 	rewardsPerValidatorPer30Days := big.NewInt(0)
 	totalValidatorsEarning := totalActive + totalYellowCard
-	if totalSubscribed != 0 {
+	if totalValidatorsEarning != 0 {
 		// This metric can be biased if multiple validators exit at once within the month
 		rewardsPerValidatorPer30Days.Div(totalRewardsSent30DaysWei, big.NewInt(0).SetUint64(totalValidatorsEarning))
 	}
-- 
2.43.0


From 93c2398880ab7348de2423b92e7f627cde4c8fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:42 +0000
Subject: [PATCH 11/25] fix: public keys only have hexadecimal digits

---
 api/api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/api.go b/api/api.go
index 0bd30c8..43598ef 100644
--- a/api/api.go
+++ b/api/api.go
@@ -1100,7 +1100,7 @@ func IsValidAddress(v string) bool {
 }
 
 func IsValidPubkey(v string) bool {
-	re := regexp.MustCompile("^0x[0-9a-fA-f]{96}$")
+	re := regexp.MustCompile("^0x[0-9a-fA-F]{96}$")
 	return re.MatchString(v)
 }
 
-- 
2.43.0


From 5b6c526802e62dbf081805b2025edbde9be7179d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:56 +0000
Subject: [PATCH 12/25] fix: queries no longer take the read lock twice and a
 failed hash releases the lock

---
 oracle/oracle.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index 6c7a4f5..d7e9c4d 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -124,7 +124,7 @@ func (or *Oracle) State() *OracleState {
 func (or *Oracle) IsCheckpoint() (bool, error) {
 	or.mutex.RLock()
 	defer or.mutex.RUnlock()
-	latestProcSlot := or.State().LatestProcessedSlot
+	latestProcSlot := or.state.LatestProcessedSlot
 
 	if latestProcSlot == 0 {
 		return false, errors.New(
@@ -147,14 +147,14 @@ func (or *Oracle) IsCheckpoint() (bool, error) {
 // verification purposes
 func (or *Oracle) StateWithHash() (*OracleState, error) {
 	or.mutex.Lock()
+	defer or.mutex.Unlock()
 
 	// Update hash
 	err := or.hashStateLockFree()
 	if err != nil {
 		return nil, errors.Wrap(err, "error hashing the oracle state")
 	}
-	or.mutex.Unlock()
-	return or.State(), nil
+	return or.state, nil
 }
 
 // Given a previous or.state, this function applies the new block to it, updating the or.state
@@ -509,11 +509,13 @@ func (or *Oracle) SaveToJson(saveSlot bool) error {
 
 	err := or.hashStateLockFree()
 	if err != nil {
+		or.mutex.Unlock()
 		return errors.Wrap(err, "error hashing the oracle state")
 	}
 
 	jsonData, err := json.MarshalIndent(or.state, "", " ")
 	if err != nil {
+		or.mutex.Unlock()
 		return errors.Wrap(err, "could not marshal state to JSON")
 	}
 	or.mutex.Unlock()
@@ -779,11 +781,15 @@ func (or *Oracle) LatestCommitedSlot() (uint64, bool) {
 	or.mutex.RLock()
 	defer or.mutex.RUnlock()
 
-	if len(or.State().CommitedStates) == 0 {
+	return or.latestCommitedSlotLockFree()
+}
+
+func (or *Oracle) latestCommitedSlotLockFree() (uint64, bool) {
+	if len(or.state.CommitedStates) == 0 {
 		return 0, false
 	}
 	latestCommitedSlot := uint64(0)
-	for slot, _ := range or.State().CommitedStates {
+	for slot, _ := range or.state.CommitedStates {
 		if slot > latestCommitedSlot {
 			latestCommitedSlot = slot
 		}
@@ -796,14 +802,14 @@ func (or *Oracle) LatestCommitedState() *OnchainState {
 	or.mutex.RLock()
 	defer or.mutex.RUnlock()
 
-	latestCommitedSlot, atLeastOne := or.LatestCommitedSlot()
+	latestCommitedSlot, atLeastOne := or.latestCommitedSlotLockFree()
 
 	// If we havent commited any state yet
 	if !atLeastOne {
 		return nil
 	}
 
-	return or.State().CommitedStates[latestCommitedSlot]
+	return or.state.CommitedStates[latestCommitedSlot]
 }
 
 // Check if the oracle is in sync with a given root and slot. Its considered in sync
-- 
2.43.0


From 3039e83fbbfd1174229f47706ac822cfc657de62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:30 +0000
Subject: [PATCH 13/25] fix: a block refused for its parameters does not change
 the pool fee

---
 oracle/oracle.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index d7e9c4d..d933c42 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -463,7 +463,7 @@ func (or *Oracle) validateFullBlockConfig(fullBlock *FullBlock, config *Config)
 	}
 
 	// If an UpdatePoolFee event is found, check if it's expected in the fee schedule.
-	// If expected, apply the new fee from the event. If not, crash.
+	// If expected, the new fee from the event is applied below. If not, crash.
 	if len(fullBlock.Events.UpdatePoolFee) != 0 {
 		slot := uint64(fullBlock.ConsensusDuty.Slot)
 		newFee := int(fullBlock.Events.UpdatePoolFee[0].NewPoolFee.Int64())
@@ -472,9 +472,6 @@ func (or *Oracle) validateFullBlockConfig(fullBlock *FullBlock, config *Config)
 			return errors.New(fmt.Sprintf("unexpected pool fee change at slot %d. event fee: %d, expected: %d (scheduled: %v)",
 				slot, newFee, expectedFee, expected))
 		}
-		log.Info("Applying expected fee change from UpdatePoolFee event at slot ", slot, ": ", config.PoolFeesPercentOver10000, " -> ", newFee)
-		config.PoolFeesPercentOver10000 = newFee
-		or.state.PoolFeesPercentOver10000 = newFee
 	}
 
 	if len(fullBlock.Events.PoolFeeRecipient) != 0 && !utils.Equals(config.PoolFeesAddress, fullBlock.Events.PoolFeeRecipient[0].NewPoolFeeRecipient.String()) {
@@ -492,6 +489,14 @@ func (or *Oracle) validateFullBlockConfig(fullBlock *FullBlock, config *Config)
 			config.CollateralInWei, fullBlock.Events.UpdateSubscriptionCollateral[0].NewSubscriptionCollateral))
 	}
 
+	// Only once everything is validated, so that a refused block changes nothing
+	if len(fullBlock.Events.UpdatePoolFee) != 0 {
+		newFee := int(fullBlock.Events.UpdatePoolFee[0].NewPoolFee.Int64())
+		log.Info("Applying expected fee change from UpdatePoolFee event at slot ", uint64(fullBlock.ConsensusDuty.Slot), ": ", config.PoolFeesPercentOver10000, " -> ", newFee)
+		config.PoolFeesPercentOver10000 = newFee
+		or.state.PoolFeesPercentOver10000 = newFee
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 228a168e766bd351de3be0afcce3e98c86ae3fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:20 +0000
Subject: [PATCH 14/25] fix: loading a state checks its pool fee against the
 initial fee and the schedule, and a refused load keeps the config

---
 oracle/oracle.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index d933c42..5f23b29 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -34,6 +34,7 @@ type GetPendingConsolidationsFunc func(stateID string, opts ...retry.Option) (*P
 
 type Oracle struct {
 	cfg                      *Config
+	initialPoolFee           int
 	state                    *OracleState
 	mutex                    sync.RWMutex
 	getSetOfValidators       GetSetOfValidatorsFunc
@@ -95,6 +96,7 @@ func NewOracle(cfg *Config) *Oracle {
 
 	oracle := &Oracle{
 		cfg:                      cfg,
+		initialPoolFee:           cfg.PoolFeesPercentOver10000,
 		state:                    state,
 		getSetOfValidators:       nil,
 		getPendingConsolidations: nil,
@@ -649,13 +651,16 @@ func (or *Oracle) LoadFromBytes(rawBytes []byte) (bool, error) {
 			state.PoolFeesAddress, or.cfg.PoolFeesAddress))
 	}
 
-	if state.PoolFeesPercentOver10000 != or.cfg.PoolFeesPercentOver10000 {
-		// The config starts at initialPoolFee. If the state was saved after a
-		// scheduled fee change, apply the schedule up to the state's slot.
-		applyFeeScheduleUpTo(or.cfg, state.LatestProcessedSlot)
-		if state.PoolFeesPercentOver10000 != or.cfg.PoolFeesPercentOver10000 {
+	// The config starts at initialPoolFee. If the state was saved after a
+	// scheduled fee change, apply the schedule up to the state's slot. The config
+	// itself is only updated once the state is accepted.
+	expectedCfg := *or.cfg
+	expectedCfg.PoolFeesPercentOver10000 = or.initialPoolFee
+	if state.PoolFeesPercentOver10000 != expectedCfg.PoolFeesPercentOver10000 {
+		applyFeeScheduleUpTo(&expectedCfg, state.LatestProcessedSlot)
+		if state.PoolFeesPercentOver10000 != expectedCfg.PoolFeesPercentOver10000 {
 			return false, errors.New(fmt.Sprintf("pool fees percent mismatch, recovered: %d, expected: %d",
-				state.PoolFeesPercentOver10000, or.cfg.PoolFeesPercentOver10000))
+				state.PoolFeesPercentOver10000, expectedCfg.PoolFeesPercentOver10000))
 		}
 	}
 
@@ -680,6 +685,7 @@ func (or *Oracle) LoadFromBytes(rawBytes []byte) (bool, error) {
 	}
 
 	or.state = &state
+	or.cfg.PoolFeesPercentOver10000 = expectedCfg.PoolFeesPercentOver10000
 
 	mRoot, enoughData := or.getMerkleRootIfAny()
 	log.WithFields(log.Fields{
-- 
2.43.0


From b664c8a0e48e5e5e81a37eb5e6a591099783ae93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:47 +0000
Subject: [PATCH 15/25] fix: the fee address is not listed twice when it is
 also a withdrawal address

---
 oracle/oracle.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index 5f23b29..ae7e92f 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -985,7 +985,12 @@ func (or *Oracle) GetUniqueWithdrawalAddresses() []string {
 		}
 	}
 
-	// Include also the pool address
+	// Include also the pool address, unless its also a withdrawal address
+	for _, u := range uniqueWithAdd {
+		if utils.Equals(or.State().PoolFeesAddress, u) {
+			return uniqueWithAdd
+		}
+	}
 	uniqueWithAdd = append(uniqueWithAdd, or.State().PoolFeesAddress)
 
 	return uniqueWithAdd
-- 
2.43.0


From fffb9af60a278e34ace4bb110b5b00ff872bbed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:40 +0000
Subject: [PATCH 16/25] fix: a non finalized subscription of a validator not in
 the beacon snapshot does not panic

---
 api/api.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/api/api.go b/api/api.go
index 43598ef..802c7fa 100644
--- a/api/api.go
+++ b/api/api.go
@@ -1224,7 +1224,8 @@ func (m *ApiService) ApplyNonFinalizedState(
 				eventAddress := subInBlock.Event.Sender.String()
 				if AreAddressEqual(valWithdrawalAddress, eventAddress) {
 					if subInBlock.Event.SubscriptionCollateral.Cmp(m.cfg.CollateralInWei) >= 0 {
-						if oracle.CanValidatorSubscribeToPool(subInBlock.Validator) {
+						// Validator is nil if its not in the latest beacon validators snapshot
+						if subInBlock.Validator != nil && oracle.CanValidatorSubscribeToPool(subInBlock.Validator) {
 							if val.ValidatorStatus == oracle.Untracked || val.ValidatorStatus == oracle.NotSubscribed {
 								validators[valIndex].ValidatorStatus = oracle.Active
 								validators[valIndex].PendingRewardsWei.Add(validators[valIndex].PendingRewardsWei, subInBlock.Event.SubscriptionCollateral)
-- 
2.43.0


From 8d869b7ea7618bcd46ef7fcd81e9b7b08e8c9b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 17/25] fix: save the state atomically so that a crash never
 leaves a partial file

---
 oracle/oracle.go | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index ae7e92f..2ca1990 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -535,7 +535,7 @@ func (or *Oracle) SaveToJson(saveSlot bool) error {
 
 	log.Trace("Saving state to file:", fmt.Sprintf("%s", jsonData))
 
-	err = ioutil.WriteFile(path, jsonData, 0644)
+	err = writeFileAtomic(path, jsonData)
 	if err != nil {
 		return errors.Wrap(err, "could not write file")
 	}
@@ -561,7 +561,7 @@ func (or *Oracle) SaveToJson(saveSlot bool) error {
 			"FileName":            filename,
 		}).Info("Storing also a copy of the state")
 
-		err = ioutil.WriteFile(path, jsonData, 0644)
+		err = writeFileAtomic(path, jsonData)
 		if err != nil {
 			return errors.Wrap(err, "could not write file")
 		}
@@ -570,6 +570,32 @@ func (or *Oracle) SaveToJson(saveSlot bool) error {
 	return nil
 }
 
+// Writes the file so that, even if the process dies or the disk gets full meanwhile,
+// the path holds either its previous content or the new one, never a partial one.
+func writeFileAtomic(path string, data []byte) error {
+	tmp, err := os.CreateTemp(filepath.Dir(path), filepath.Base(path)+".tmp-*")
+	if err != nil {
+		return err
+	}
+	defer os.Remove(tmp.Name())
+
+	_, err = tmp.Write(data)
+	if err == nil {
+		err = tmp.Chmod(0644)
+	}
+	if err == nil {
+		err = tmp.Sync()
+	}
+	closeErr := tmp.Close()
+	if err != nil {
+		return err
+	}
+	if closeErr != nil {
+		return closeErr
+	}
+	return os.Rename(tmp.Name(), path)
+}
+
 // Loads the oracle state from a human readable json file. Multiple
 // check are performed to ensure the state is valid such as checking
 // the hash of the state and ensuring the configuation has not changed
-- 
2.43.0


From 249a8396b48b55e31bc2f6f2d4cd9a00ba935f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:25 +0000
Subject: [PATCH 18/25] fix: a state file with a missing or short hash is
 refused with an error, not with a crash

---
 oracle/oracle.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index 2ca1990..9acfb59 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -6,6 +6,7 @@ import (
 	"encoding/json"
 	"sort"
 	"strconv"
+	"strings"
 
 	"fmt"
 	"io/ioutil"
@@ -655,8 +656,8 @@ func (or *Oracle) LoadFromBytes(rawBytes []byte) (bool, error) {
 	calculatedHashByte := sha256.Sum256(jsonNoHash[:])
 	calculatedHashString := hexutil.Encode(calculatedHashByte[:])
 
-	// Hashes must match
-	if !utils.Equals(recoveredHash, calculatedHashString) {
+	// Hashes must match (the recovered one can be anything, also of another length)
+	if !strings.EqualFold(recoveredHash, calculatedHashString) {
 		return false, errors.New(fmt.Sprintf("hash mismatch, recovered: %s, calculated: %s",
 			recoveredHash, calculatedHashString))
 	}
-- 
2.43.0


From c97340080e74596c13dd3fa38d3a30f7d7db002e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:08 +0000
Subject: [PATCH 19/25] fix: refuse receipts of which any, not only the first,
 is of another block

---
 oracle/block.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oracle/block.go b/oracle/block.go
index be1c2e0..72d365a 100644
--- a/oracle/block.go
+++ b/oracle/block.go
@@ -145,10 +145,10 @@ func (b *FullBlock) SetHeaderAndReceipts(header *types.Header, receipts []*types
 			b.GetBlockNumberBigInt().Uint64(), " vs ", header.Number.Uint64())
 	}
 
-	if len(receipts) != 0 {
-		if b.GetBlockNumberBigInt().Uint64() != receipts[0].BlockNumber.Uint64() {
+	for _, receipt := range receipts {
+		if b.GetBlockNumberBigInt().Uint64() != receipt.BlockNumber.Uint64() {
 			log.Fatal("Block number mismatch with receipts: ",
-				b.GetBlockNumberBigInt().Uint64(), " vs ", receipts[0].BlockNumber.Uint64())
+				b.GetBlockNumberBigInt().Uint64(), " vs ", receipt.BlockNumber.Uint64())
 		}
 	}
 
-- 
2.43.0


From e1947e64a2e5e3a42b83cd16b8da5f280c94bef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:12 +0000
Subject: [PATCH 20/25] fix: the initial pool fee is that of the pool's own
 deployment, not of another contract of the block

---
 oracle/onchain.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/oracle/onchain.go b/oracle/onchain.go
index df994dc..de580e0 100644
--- a/oracle/onchain.go
+++ b/oracle/onchain.go
@@ -419,6 +419,7 @@ func decodeInitialPoolFee(block *types.Block, poolAddress string) (int, error) {
 	selector := initMethod.ID // 4-byte selector
 
 	poolAddr := common.HexToAddress(poolAddress)
+	candidates := make([]int, 0)
 
 	for _, tx := range block.Transactions() {
 		data := tx.Data()
@@ -440,11 +441,24 @@ func decodeInitialPoolFee(block *types.Block, poolAddress string) (int, error) {
 		// in the tx data. Scan for the 4-byte selector.
 		if tx.To() == nil {
 			if fee, err := findInitializeInCreationData(initMethod, selector, data); err == nil {
-				return fee, nil
+				// The same block may deploy other contracts with an initialize() call
+				var signer types.Signer = types.HomesteadSigner{}
+				if tx.Protected() {
+					signer = types.LatestSignerForChainID(tx.ChainId())
+				}
+				if sender, err := types.Sender(signer, tx); err == nil && crypto.CreateAddress(sender, tx.Nonce()) == poolAddr {
+					return fee, nil
+				}
+				candidates = append(candidates, fee)
 			}
 		}
 	}
 
+	// The pool may have been created by the constructor of another contract
+	if len(candidates) > 0 {
+		return candidates[0], nil
+	}
+
 	return 0, errors.New("initialize() transaction not found in deployment block")
 }
 
-- 
2.43.0


From 528659df5572c8729fdbd8eeff9cc17c12f577e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:20 +0000
Subject: [PATCH 21/25] fix: do not report a validator as unregistered when a
 relay fails

---
 api/api.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/api/api.go b/api/api.go
index 802c7fa..36ec0fe 100644
--- a/api/api.go
+++ b/api/api.go
@@ -1052,6 +1052,10 @@ func (m *ApiService) handleValidatorRelayers(w http.ResponseWriter, req *http.Re
 			} else {
 				wrongFeeRelays = append(wrongFeeRelays, relayRegistration)
 			}
+		} else if resp.StatusCode >= http.StatusInternalServerError || resp.StatusCode == http.StatusTooManyRequests {
+			// The relay could not tell, which does not mean that the validator is not registered
+			m.respondError(w, http.StatusInternalServerError, "relayer endpoint "+relay+" failed: "+resp.Status)
+			return
 		} else {
 			unregisteredRelays = append(unregisteredRelays, httpRelay{
 				RelayAddress: relay,
-- 
2.43.0


From 61e46f6fc18274b8946252121c3e6d33cc06093b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:20 +0000
Subject: [PATCH 22/25] fix: refuse a pool address without 0x prefix, the
 oracle stops at the first block with it

---
 config/config.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index e371736..7ceb4d9 100644
--- a/config/config.go
+++ b/config/config.go
@@ -73,7 +73,8 @@ func NewCliConfig() (*CliConfig, error) {
 		return nil, errors.New("you can't provide a password for the keystore file in dry run mode")
 	}
 
-	if !common.IsHexAddress(*poolAddress) {
+	// IsHexAddress accepts addresses without prefix, that can't be compared with the ones found onchain
+	if !common.IsHexAddress(*poolAddress) || len(*poolAddress) != 2+2*common.AddressLength {
 		return nil, errors.New("pool-address: " + *poolAddress + " is not a valid address")
 	}
 
-- 
2.43.0


From 752cfa4f178090c5f5ee70a8f1bb4c6536e0dd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:30 +0000
Subject: [PATCH 23/25] fix: serve queries from a copy of the state, reading it
 while a slot is processed can crash the oracle

---
 api/api.go       | 98 +++++++++++++++++++++++++++---------------------
 oracle/oracle.go | 40 +++++++++++++-------
 oracle/types.go  | 29 ++++++++++++++
 3 files changed, 110 insertions(+), 57 deletions(-)

diff --git a/api/api.go b/api/api.go
index 36ec0fe..fe8bbc9 100644
--- a/api/api.go
+++ b/api/api.go
@@ -266,6 +266,8 @@ func (m *ApiService) handleRoot(w http.ResponseWriter, req *http.Request) {
 }
 
 func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Request) {
+	state := m.oracle.StateSnapshot()
+
 	// Ensure the oracle is ready
 	if !m.OracleReady(uint64(64)) {
 		m.respondError(w, http.StatusServiceUnavailable, "Oracle node is currently syncing and not serving requests")
@@ -282,7 +284,7 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 	totalAccumulatedRewards := big.NewInt(0)
 	totalPendingRewards := big.NewInt(0)
 
-	for _, validator := range m.oracle.State().Validators {
+	for _, validator := range state.Validators {
 		if validator.ValidatorStatus == oracle.Active {
 			totalActive++
 		} else if validator.ValidatorStatus == oracle.YellowCard {
@@ -305,19 +307,19 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 	totalDonationsWei := big.NewInt(0)
 
 	// Prevent underflow
-	if uint64(m.oracle.State().LatestProcessedSlot) < SlotsInOneMonth {
+	if uint64(state.LatestProcessedSlot) < SlotsInOneMonth {
 		m.respondError(w, http.StatusInternalServerError, "head slot is lower than slots in a month, this should not happen")
 		return
 	}
 
-	if uint64(m.oracle.State().LatestProcessedBlock) < SlotsInOneMonth {
+	if uint64(state.LatestProcessedBlock) < SlotsInOneMonth {
 		m.respondError(w, http.StatusInternalServerError, "head block is lower than slots in a month, this should not happen")
 		return
 	}
 
 	// Only consider blocks in the last 30 days
-	limitSlot := uint64(m.oracle.State().LatestProcessedSlot) - SlotsInOneMonth
-	limitBlock := uint64(m.oracle.State().LatestProcessedBlock) - SlotsInOneMonth
+	limitSlot := uint64(state.LatestProcessedSlot) - SlotsInOneMonth
+	limitBlock := uint64(state.LatestProcessedBlock) - SlotsInOneMonth
 
 	// Note that in a month we have SlotsInOneMonth slots, but not exactly that amount of blocks. If blocks
 	// are missed we can have less. If blocks are missed we will take into account a time window
@@ -325,7 +327,7 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 
 	totalOkPoolProposalBlocks := uint64(0)
 
-	for _, block := range m.oracle.State().ProposedBlocks {
+	for _, block := range state.ProposedBlocks {
 		// only consider ok pool proposals, since these are the only type of blocks that are shared
 		// across all validators
 		if block.BlockType == oracle.OkPoolProposal {
@@ -339,7 +341,7 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 		}
 	}
 
-	for _, donation := range m.oracle.State().Donations {
+	for _, donation := range state.Donations {
 		totalDonationsWei.Add(totalDonationsWei, donation.DonationAmount)
 
 		// Note that rewards also take donations into account
@@ -357,7 +359,7 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 		rewardsPerValidatorPer30Days.Div(totalRewardsSent30DaysWei, big.NewInt(0).SetUint64(totalValidatorsEarning))
 	}
 
-	totalProposedBlocks := uint64(len(m.oracle.State().ProposedBlocks))
+	totalProposedBlocks := uint64(len(state.ProposedBlocks))
 	avgBlockRewardWei := big.NewInt(0)
 
 	// Avoid division by zero
@@ -369,7 +371,7 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 	totalEffectiveBalance := uint64(0)
 	effectiveBalances := m.Onchain.Validators()
 
-	for _, validator := range m.oracle.State().Validators {
+	for _, validator := range state.Validators {
 		if validator.ValidatorStatus == oracle.Active ||
 			validator.ValidatorStatus == oracle.YellowCard ||
 			validator.ValidatorStatus == oracle.RedCard {
@@ -395,8 +397,8 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 		TotalRedCard:                 totalRedCard,
 		TotalBanned:                  totalBanned,
 		TotalNotSubscribed:           totalNotSubscribed,
-		LatestCheckpointSlot:         m.oracle.State().LatestProcessedSlot,
-		NextCheckpointSlot:           m.oracle.State().LatestProcessedSlot + m.cfg.CheckPointSizeInSlots,
+		LatestCheckpointSlot:         state.LatestProcessedSlot,
+		NextCheckpointSlot:           state.LatestProcessedSlot + m.cfg.CheckPointSizeInSlots,
 		TotalAccumulatedRewardsWei:   totalAccumulatedRewards.String(),
 		TotalPendingRewaradsWei:      totalPendingRewards.String(),
 		TotalRewardsSentWei:          totalRewardsSentWei.String(),
@@ -405,8 +407,8 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 		TotalRewardsSent30DaysWei:    totalRewardsSent30DaysWei.String(),
 		RewardsPerValidatorPer30Days: rewardsPerValidatorPer30Days.String(),
 		TotalProposedBlocks:          totalProposedBlocks,
-		TotalMissedBlocks:            uint64(len(m.oracle.State().MissedBlocks)),
-		TotalWrongFeeBlocks:          uint64(len(m.oracle.State().WrongFeeBlocks)),
+		TotalMissedBlocks:            uint64(len(state.MissedBlocks)),
+		TotalWrongFeeBlocks:          uint64(len(state.WrongFeeBlocks)),
 		TotalEffectiveBalanceGwei:    fmt.Sprintf("%d", totalEffectiveBalance),
 		AvgEffectiveBalanceGwei:      fmt.Sprintf("%d", avgEffectiveBalance),
 	})
@@ -462,8 +464,9 @@ func (m *ApiService) handleStatus(w http.ResponseWriter, req *http.Request) {
 
 	finalizedSlot := uint64(finality.Header.Message.Slot)
 
+	state := m.oracle.StateSnapshot()
 	oracleSync := false
-	if m.oracle.State().LatestProcessedSlot-finalizedSlot == 0 {
+	if state.LatestProcessedSlot-finalizedSlot == 0 {
 		oracleSync = true
 	}
 
@@ -484,11 +487,11 @@ func (m *ApiService) handleStatus(w http.ResponseWriter, req *http.Request) {
 		IsConsensusInSync:           consInSync,
 		IsExecutionInSync:           execInSync,
 		IsOracleInSync:              oracleSync,
-		LatestProcessedSlot:         m.oracle.State().LatestProcessedSlot,
-		LatestProcessedBlock:        m.oracle.State().LatestProcessedBlock,
+		LatestProcessedSlot:         state.LatestProcessedSlot,
+		LatestProcessedBlock:        state.LatestProcessedBlock,
 		LatestFinalizedEpoch:        finalizedSlot / 32,
 		LatestFinalizedSlot:         finalizedSlot,
-		OracleHeadDistance:          finalizedSlot - m.oracle.State().LatestProcessedSlot,
+		OracleHeadDistance:          finalizedSlot - state.LatestProcessedSlot,
 		NextCheckpointSlot:          onchainSlot + m.cfg.CheckPointSizeInSlots,
 		NextCheckpointTime:          "", // TODO:
 		NextCheckpointRemaining:     utils.SlotsToTime(nextCheckpointInSlots, constants.SecondsInSlot),
@@ -527,7 +530,7 @@ func (m *ApiService) handleMemoryValidators(w http.ResponseWriter, req *http.Req
 		m.respondError(w, http.StatusServiceUnavailable, "Oracle node is currently syncing and not serving requests")
 		return
 	}
-	validators := maps.Values(m.oracle.State().Validators)
+	validators := maps.Values(m.oracle.StateSnapshot().Validators)
 
 	// Order by index
 	sort.Slice(validators, func(i, j int) bool { return validators[i].ValidatorIndex < validators[j].ValidatorIndex })
@@ -572,7 +575,7 @@ func (m *ApiService) handleMemoryValidatorInfo(w http.ResponseWriter, req *http.
 		return
 	}
 
-	validator, found := m.oracle.State().Validators[valIndex]
+	validator, found := m.oracle.StateSnapshot().Validators[valIndex]
 	if !found {
 		m.respondError(w, http.StatusBadRequest, fmt.Sprint("could not find validator with index: ", valIndex))
 		return
@@ -618,9 +621,11 @@ func (m *ApiService) handleMemoryValidatorsByIndex(w http.ResponseWriter, req *h
 	var foundValidators []httpOkValidatorInfo
 	var notFoundValidators []uint64
 
+	state := m.oracle.StateSnapshot()
+
 	// Check if each validator is in the oracle state. Append to foundValidators or notFoundValidators
 	for _, index := range indices {
-		if validator, found := m.oracle.State().Validators[index]; found {
+		if validator, found := state.Validators[index]; found {
 			// Convert ValidatorInfo to httpOkValidatorInfo. This is done to return strings instead of bigInts
 			beaconState, found := m.Onchain.Validators()[phase0.ValidatorIndex(validator.ValidatorIndex)]
 			if !found {
@@ -715,10 +720,11 @@ func (m *ApiService) handleMemoryValidatorsByWithdrawal(w http.ResponseWriter, r
 	}
 
 	// 2) Get all tracked validators for that withdrawal address (tracked)
+	state := m.oracle.StateSnapshot()
 	validatorsCopy := make(map[uint64]*oracle.ValidatorInfo)
 
 	// Imporant! This is a deep copy, otherwise we will modify the state
-	utils.DeepCopy(m.oracle.State().Validators, &validatorsCopy)
+	utils.DeepCopy(state.Validators, &validatorsCopy)
 	for valIndex, validator := range validatorsCopy {
 		// Just overwrite the untracked validators with oracle state
 		if AreAddressEqual(validator.WithdrawalAddress, withdrawalAddress) {
@@ -745,12 +751,12 @@ func (m *ApiService) handleMemoryValidatorsByWithdrawal(w http.ResponseWriter, r
 	// This applies a non-finalized state to the validators, creating a virtual state
 	// only used for the api.
 
-	if m.oracle.State().LatestProcessedBlock == 0 {
+	if state.LatestProcessedBlock == 0 {
 		m.respondError(w, http.StatusInternalServerError, "latest processed block is 0, try again later")
 		return
 	}
 
-	firstNotProcessedBlock := m.oracle.State().LatestProcessedBlock + 1
+	firstNotProcessedBlock := state.LatestProcessedBlock + 1
 
 	// TODO: Cache this, very inneficient to get it every time
 	allSubsTillHead, err := m.GetSubscriptionsTillHead(firstNotProcessedBlock)
@@ -800,18 +806,22 @@ func (m *ApiService) handleMemoryValidatorsByWithdrawal(w http.ResponseWriter, r
 }
 
 func (m *ApiService) handleMemoryFeesInfo(w http.ResponseWriter, req *http.Request) {
+	state := m.oracle.StateSnapshot()
+
 	m.respondOK(w, httpOkMemoryFeesInfo{
-		PoolFeesPercentOver10000: m.oracle.State().PoolFeesPercentOver10000,
-		PoolFeesAddress:          m.oracle.State().PoolFeesAddress,
-		PoolAccumulatedFees:      m.oracle.State().PoolAccumulatedFees.String(),
+		PoolFeesPercentOver10000: state.PoolFeesPercentOver10000,
+		PoolFeesAddress:          state.PoolFeesAddress,
+		PoolAccumulatedFees:      state.PoolAccumulatedFees.String(),
 	})
 }
 
 func (m *ApiService) handleMemoryAllBlocks(w http.ResponseWriter, req *http.Request) {
+	state := m.oracle.StateSnapshot()
+
 	// Concat all the blocks, order is not guaranteed
 	allBlocks := make([]httpOkBlock, 0)
 
-	for _, block := range m.oracle.State().ProposedBlocks {
+	for _, block := range state.ProposedBlocks {
 		allBlocks = append(allBlocks, httpOkBlock{
 			Slot:              block.Slot,
 			Block:             block.Block,
@@ -824,7 +834,7 @@ func (m *ApiService) handleMemoryAllBlocks(w http.ResponseWriter, req *http.Requ
 		})
 	}
 
-	for _, block := range m.oracle.State().MissedBlocks {
+	for _, block := range state.MissedBlocks {
 		allBlocks = append(allBlocks, httpOkBlock{
 			Slot:              block.Slot,
 			Block:             block.Block,
@@ -837,7 +847,7 @@ func (m *ApiService) handleMemoryAllBlocks(w http.ResponseWriter, req *http.Requ
 		})
 	}
 
-	for _, block := range m.oracle.State().WrongFeeBlocks {
+	for _, block := range state.WrongFeeBlocks {
 		allBlocks = append(allBlocks, httpOkBlock{
 			Slot:              block.Slot,
 			Block:             block.Block,
@@ -855,7 +865,7 @@ func (m *ApiService) handleMemoryAllBlocks(w http.ResponseWriter, req *http.Requ
 
 func (m *ApiService) handleMemoryProposedBlocks(w http.ResponseWriter, req *http.Request) {
 	proposedBlocks := make([]httpOkBlock, 0)
-	for _, block := range m.oracle.State().ProposedBlocks {
+	for _, block := range m.oracle.StateSnapshot().ProposedBlocks {
 		proposedBlocks = append(proposedBlocks, httpOkBlock{
 			Slot:              block.Slot,
 			Block:             block.Block,
@@ -872,7 +882,7 @@ func (m *ApiService) handleMemoryProposedBlocks(w http.ResponseWriter, req *http
 
 func (m *ApiService) handleMemoryMissedBlocks(w http.ResponseWriter, req *http.Request) {
 	missedBlocks := make([]httpOkBlock, 0)
-	for _, block := range m.oracle.State().MissedBlocks {
+	for _, block := range m.oracle.StateSnapshot().MissedBlocks {
 		missedBlocks = append(missedBlocks, httpOkBlock{
 			Slot:              block.Slot,
 			Block:             block.Block,
@@ -889,7 +899,7 @@ func (m *ApiService) handleMemoryMissedBlocks(w http.ResponseWriter, req *http.R
 
 func (m *ApiService) handleMemoryWrongFeeBlocks(w http.ResponseWriter, req *http.Request) {
 	wrongFeeBlocks := make([]httpOkBlock, 0)
-	for _, block := range m.oracle.State().WrongFeeBlocks {
+	for _, block := range m.oracle.StateSnapshot().WrongFeeBlocks {
 		wrongFeeBlocks = append(wrongFeeBlocks, httpOkBlock{
 			Slot:              block.Slot,
 			Block:             block.Block,
@@ -906,7 +916,7 @@ func (m *ApiService) handleMemoryWrongFeeBlocks(w http.ResponseWriter, req *http
 
 func (m *ApiService) handleMemoryDonations(w http.ResponseWriter, req *http.Request) {
 	donations := make([]httpOkDonation, 0)
-	for _, donation := range m.oracle.State().Donations {
+	for _, donation := range m.oracle.StateSnapshot().Donations {
 		donations = append(donations, httpOkDonation{
 			AmountWei: donation.DonationAmount.String(),
 			Block:     donation.Raw.BlockNumber,
@@ -940,29 +950,31 @@ func (m *ApiService) handleOnchainMerkleProof(w http.ResponseWriter, req *http.R
 		return
 	}
 
-	_, found := m.oracle.State().CommitedStates[contractSlot]
+	state := m.oracle.StateSnapshot()
+
+	_, found := state.CommitedStates[contractSlot]
 	if !found {
 		m.respondError(w, http.StatusInternalServerError, "could not find onchain slot in oracle state: "+strconv.FormatUint(contractSlot, 10))
 		return
 	}
 
 	// Check if the oracle root matches the one offchain
-	if contractRoot != m.oracle.State().CommitedStates[contractSlot].MerkleRoot {
+	if contractRoot != state.CommitedStates[contractSlot].MerkleRoot {
 		m.respondError(w, http.StatusInternalServerError,
 			"contract merkle root does not match oracle state: "+
-				contractRoot+" vs "+m.oracle.State().CommitedStates[contractSlot].MerkleRoot)
+				contractRoot+" vs "+state.CommitedStates[contractSlot].MerkleRoot)
 		return
 	}
 
 	// Get the proofs of this withdrawal address (to be used onchain to claim rewards)
-	proofs, proofFound := m.oracle.State().CommitedStates[contractSlot].Proofs[withdrawalAddress]
+	proofs, proofFound := state.CommitedStates[contractSlot].Proofs[withdrawalAddress]
 	if !proofFound {
 		m.respondError(w, http.StatusBadRequest, "could not find proof for WithdrawalAddress: "+withdrawalAddress)
 		return
 	}
 
 	// Get the leafs of this withdrawal address (to be used onchain to claim rewards)
-	leafs, leafsFound := m.oracle.State().CommitedStates[contractSlot].Leafs[withdrawalAddress]
+	leafs, leafsFound := state.CommitedStates[contractSlot].Leafs[withdrawalAddress]
 	if !leafsFound {
 		m.respondError(w, http.StatusBadRequest, "could not find leafs for WithdrawalAddress: "+withdrawalAddress)
 		return
@@ -970,7 +982,7 @@ func (m *ApiService) handleOnchainMerkleProof(w http.ResponseWriter, req *http.R
 
 	// Get validators that are registered to this withdrawal address in the pool
 	registeredValidators := make([]uint64, 0)
-	for valIndex, validator := range m.oracle.State().CommitedStates[contractSlot].Validators {
+	for valIndex, validator := range state.CommitedStates[contractSlot].Validators {
 		if strings.ToLower(validator.WithdrawalAddress) == strings.ToLower(withdrawalAddress) {
 			registeredValidators = append(registeredValidators, valIndex)
 		}
@@ -984,7 +996,7 @@ func (m *ApiService) handleOnchainMerkleProof(w http.ResponseWriter, req *http.R
 
 	totalPending := big.NewInt(0)
 
-	for _, validator := range m.oracle.State().CommitedStates[contractSlot].Validators {
+	for _, validator := range state.CommitedStates[contractSlot].Validators {
 		if strings.ToLower(validator.WithdrawalAddress) == strings.ToLower(withdrawalAddress) {
 			totalPending.Add(totalPending, validator.PendingRewardsWei)
 		}
@@ -993,8 +1005,8 @@ func (m *ApiService) handleOnchainMerkleProof(w http.ResponseWriter, req *http.R
 	m.respondOK(w, httpOkProofs{
 		LeafWithdrawalAddress:      leafs.WithdrawalAddress,
 		LeafAccumulatedBalance:     leafs.AccumulatedBalanceWei.String(),
-		MerkleRoot:                 m.oracle.State().CommitedStates[contractSlot].MerkleRoot,
-		CheckpointSlot:             m.oracle.State().CommitedStates[contractSlot].Slot,
+		MerkleRoot:                 state.CommitedStates[contractSlot].MerkleRoot,
+		CheckpointSlot:             state.CommitedStates[contractSlot].Slot,
 		Proofs:                     proofs,
 		RegisteredValidators:       registeredValidators,
 		TotalAccumulatedRewardsWei: leafs.AccumulatedBalanceWei.String(),
@@ -1276,7 +1288,7 @@ func (m *ApiService) OracleReady(maxSlotsBehind uint64) bool {
 		return false
 	}
 
-	slotsFromFinalized := finalizedSlot - m.oracle.State().LatestProcessedSlot
+	slotsFromFinalized := finalizedSlot - m.oracle.StateSnapshot().LatestProcessedSlot
 
 	// Use this if we want full in sync to latest finalized
 	/*oracleInSync := false
diff --git a/oracle/oracle.go b/oracle/oracle.go
index 9acfb59..2eb6ab7 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -122,6 +122,14 @@ func (or *Oracle) State() *OracleState {
 	return or.state
 }
 
+// Returns a copy of the state, that unlike the state itself can be used while
+// slots are being processed, since nothing modifies it
+func (or *Oracle) StateSnapshot() *OracleState {
+	or.mutex.RLock()
+	defer or.mutex.RUnlock()
+	return or.state.snapshot()
+}
+
 // Returns wether a checkpoint has been reached or not. A checkpoint is reached
 // when CheckPointSizeInSlots have passed from the last checkpoint
 func (or *Oracle) IsCheckpoint() (bool, error) {
@@ -157,7 +165,7 @@ func (or *Oracle) StateWithHash() (*OracleState, error) {
 	if err != nil {
 		return nil, errors.Wrap(err, "error hashing the oracle state")
 	}
-	return or.state, nil
+	return or.state.snapshot(), nil
 }
 
 // Given a previous or.state, this function applies the new block to it, updating the or.state
@@ -526,6 +534,8 @@ func (or *Oracle) SaveToJson(saveSlot bool) error {
 		or.mutex.Unlock()
 		return errors.Wrap(err, "could not marshal state to JSON")
 	}
+	// The state can change as soon as its unlocked
+	state := or.state.snapshot()
 	or.mutex.Unlock()
 
 	path := filepath.Join(StateFolder, StateJsonName)
@@ -542,23 +552,23 @@ func (or *Oracle) SaveToJson(saveSlot bool) error {
 	}
 
 	log.WithFields(log.Fields{
-		"LatestProcessedSlot":  or.state.LatestProcessedSlot,
-		"LatestProcessedBlock": or.state.LatestProcessedBlock,
-		"NextSlotToProcess":    or.state.NextSlotToProcess,
-		"TotalValidators":      len(or.state.Validators),
-		"Network":              or.state.Network,
-		"PoolAddress":          or.state.PoolAddress,
+		"LatestProcessedSlot":  state.LatestProcessedSlot,
+		"LatestProcessedBlock": state.LatestProcessedBlock,
+		"NextSlotToProcess":    state.NextSlotToProcess,
+		"TotalValidators":      len(state.Validators),
+		"Network":              state.Network,
+		"PoolAddress":          state.PoolAddress,
 		"Path":                 path,
-		"Hash":                 or.state.StateHash,
+		"Hash":                 state.StateHash,
 	}).Info("Saved state to file")
 
 	// If saveSlot is true, save a copy of the state with the slot number in the file
 	if saveSlot {
-		filename := fmt.Sprintf("state_%d.json", or.State().LatestProcessedSlot)
+		filename := fmt.Sprintf("state_%d.json", state.LatestProcessedSlot)
 		path = filepath.Join(StateFolder, filename)
 
 		log.WithFields(log.Fields{
-			"LatestProcessedSlot": or.state.LatestProcessedSlot,
+			"LatestProcessedSlot": state.LatestProcessedSlot,
 			"FileName":            filename,
 		}).Info("Storing also a copy of the state")
 
@@ -874,7 +884,7 @@ func (or *Oracle) IsOracleInSyncWithChain(onchainRoot string, onchainSlot uint64
 		return false, nil
 	}
 
-	latestOracleRoot := or.State().CommitedStates[latestCommitedSlot].MerkleRoot
+	latestOracleRoot := or.StateSnapshot().CommitedStates[latestCommitedSlot].MerkleRoot
 
 	if utils.Equals(onchainRoot, latestOracleRoot) && onchainSlot == latestCommitedSlot {
 		log.WithFields(log.Fields{
@@ -993,10 +1003,12 @@ func (or *Oracle) RunOffchainReconciliation() error {
 }
 
 func (or *Oracle) GetUniqueWithdrawalAddresses() []string {
+	state := or.StateSnapshot()
+
 	var uniqueWithAdd []string
 
 	// Iterate all validators
-	for _, validator := range or.State().Validators {
+	for _, validator := range state.Validators {
 		skip := false
 		// Iterate all unique deposit addresses processed before
 		for _, u := range uniqueWithAdd {
@@ -1014,11 +1026,11 @@ func (or *Oracle) GetUniqueWithdrawalAddresses() []string {
 
 	// Include also the pool address, unless its also a withdrawal address
 	for _, u := range uniqueWithAdd {
-		if utils.Equals(or.State().PoolFeesAddress, u) {
+		if utils.Equals(state.PoolFeesAddress, u) {
 			return uniqueWithAdd
 		}
 	}
-	uniqueWithAdd = append(uniqueWithAdd, or.State().PoolFeesAddress)
+	uniqueWithAdd = append(uniqueWithAdd, state.PoolFeesAddress)
 
 	return uniqueWithAdd
 }
diff --git a/oracle/types.go b/oracle/types.go
index df3ce5c..00b3d76 100644
--- a/oracle/types.go
+++ b/oracle/types.go
@@ -222,6 +222,35 @@ type OracleState struct {
 	CollateralInWei          *big.Int `json:"collateral_in_wei"`
 }
 
+// Copies everything that processing a slot or freezing a checkpoint modifies in place. Events,
+// blocks and checkpoints are only appended, so they are not copied
+func (s *OracleState) snapshot() *OracleState {
+	snap := *s
+	snap.PoolAccumulatedFees = copyBig(s.PoolAccumulatedFees)
+
+	snap.Validators = make(map[uint64]*ValidatorInfo, len(s.Validators))
+	for index, validator := range s.Validators {
+		v := *validator
+		v.AccumulatedRewardsWei = copyBig(v.AccumulatedRewardsWei)
+		v.PendingRewardsWei = copyBig(v.PendingRewardsWei)
+		v.CollateralWei = copyBig(v.CollateralWei)
+		snap.Validators[index] = &v
+	}
+
+	snap.CommitedStates = make(map[uint64]*OnchainState, len(s.CommitedStates))
+	for slot, commited := range s.CommitedStates {
+		snap.CommitedStates[slot] = commited
+	}
+	return &snap
+}
+
+func copyBig(x *big.Int) *big.Int {
+	if x == nil {
+		return nil
+	}
+	return new(big.Int).Set(x)
+}
+
 type RawLeaf struct {
 	WithdrawalAddress     string   `json:"withdrawal_address"`
 	AccumulatedBalanceWei *big.Int `json:"accumulated_balance_wei"`
-- 
2.43.0


From 1c5ee73e23315d7990d3ea4b104f2384d9775e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 24/25] fix: a stop signal between processing a checkpoint slot
 and freezing its checkpoint saved a state that skips it

---
 main.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/main.go b/main.go
index 6b6b828..c241564 100644
--- a/main.go
+++ b/main.go
@@ -11,6 +11,7 @@ import (
 	"os/signal"
 	"path/filepath"
 	"strings"
+	"sync"
 	"syscall"
 	"time"
 
@@ -204,6 +205,7 @@ func main() {
 
 		// Save state in SIGINT or SIGTERM
 		if sig == syscall.SIGINT || sig == syscall.SIGTERM {
+			processingSlot.Lock()
 			err := oracleInstance.SaveToJson(false)
 			if err != nil {
 				log.Error("Could not save state to json: ", err)
@@ -220,6 +222,10 @@ func main() {
 	log.Info("Oracle gracefully stopped")
 }
 
+// Held while a slot is being processed, until its checkpoint (if any) is frozen. A state saved in between
+// would be at the slot of a checkpoint that it doesn't contain, and that would never be created.
+var processingSlot sync.Mutex
+
 func mainLoop(oracleInstance *oracle.Oracle, onchain *oracle.Onchain, cfg *oracle.Config) {
 
 	lastReconciliationTime := int64(0)
@@ -255,10 +261,16 @@ func mainLoop(oracleInstance *oracle.Oracle, onchain *oracle.Onchain, cfg *oracl
 
 		if finalizedSlot >= oracleInstance.State().NextSlotToProcess {
 
+			// Every X slots we update the onchain validators
+			if oracleInstance.State().LatestProcessedSlot%UpdateValidatorsIntervalSlots == 0 {
+				onchain.RefreshBeaconValidators()
+			}
+
 			// Fetch block information
 			fullBlock := onchain.FetchFullBlock(oracleInstance.State().NextSlotToProcess, oracleInstance)
 
 			// Process the block
+			processingSlot.Lock()
 			processedSlot, err := oracleInstance.AdvanceStateToNextSlot(fullBlock)
 			if err != nil {
 				log.Fatal(err)
@@ -310,18 +322,15 @@ func mainLoop(oracleInstance *oracle.Oracle, onchain *oracle.Onchain, cfg *oracl
 			continue
 		}
 
-		// Every X slots we update the onchain validators
-		if oracleInstance.State().LatestProcessedSlot%UpdateValidatorsIntervalSlots == 0 {
-			onchain.RefreshBeaconValidators()
-		}
-
 		// Every CheckPointSizeInSlots we commit the state given some conditions, starting from
 		// when the contract was deployed.
 		isCheckpoint, err := oracleInstance.IsCheckpoint()
 		if err != nil {
 			log.Fatal("Could not check if we are at a checkpoint: ", err)
 		}
-		if isCheckpoint {
+		if !isCheckpoint {
+			processingSlot.Unlock()
+		} else {
 			log.WithFields(log.Fields{
 				"LatestProcessedSlot":   oracleInstance.State().LatestProcessedSlot,
 				"CheckPointSizeInSlots": cfg.CheckPointSizeInSlots,
@@ -355,6 +364,7 @@ func mainLoop(oracleInstance *oracle.Oracle, onchain *oracle.Onchain, cfg *oracl
 
 			// Freeze state
 			enoughData := oracleInstance.FreezeCheckpoint()
+			processingSlot.Unlock()
 			if !enoughData {
 				log.Warn("Not enough data to create a merkle tree and hence update the contract. Skipping till next checkpoint")
 				continue
-- 
2.43.0


From 4c46d2ecf045d44867372039ef135a1bbc5a3bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:34 +0000
Subject: [PATCH 25/25] fix: validators that were not asked for were taken as
 part of the answer, and shared in the rewards

---
 oracle/onchain.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/oracle/onchain.go b/oracle/onchain.go
index de580e0..b40785c 100644
--- a/oracle/onchain.go
+++ b/oracle/onchain.go
@@ -370,12 +370,21 @@ func (o *Onchain) GetSetOfValidators(valIndices []phase0.ValidatorIndex, slot st
 	}
 
 	// Sanity checks - Ensure all requested validators are found
+	requested := make(map[phase0.ValidatorIndex]bool, len(valIndices))
 	for _, idx := range valIndices {
+		requested[idx] = true
 		if _, found := validators.Data[idx]; !found {
 			return nil, errors.New(fmt.Sprintf("Error fetching validators: Could not find index in response: %d", idx))
 		}
 	}
 
+	// And that there is nothing else. Rewards are shared among the returned validators
+	for idx := range validators.Data {
+		if !requested[idx] {
+			return nil, errors.New(fmt.Sprintf("Error fetching validators: Index in response was not requested: %d", idx))
+		}
+	}
+
 	return validators.Data, nil
 }
 
-- 
2.43.0

