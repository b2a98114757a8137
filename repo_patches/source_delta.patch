From 245ec5924323d27ae328355cdc36c5e99317df9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:42 +0000
Subject: [PATCH 01/21] fix: read the signing position only from messages of
 the matching type

A nil vote with the epoch as timestamp also decodes as a proposal, so it was
given the proposal step, and a vote of an unknown type made the signer panic.
---
 signer/Serialization.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/signer/Serialization.go b/signer/Serialization.go
index 7cb039f..14e2a35 100644
--- a/signer/Serialization.go
+++ b/signer/Serialization.go
@@ -28,14 +28,15 @@ func WriteMsg(writer io.Writer, msg tmProtoPrivval.Message) (err error) {
 func UnpackHRST(signBytes []byte) (HRSTKey, error) {
 	{
 		var proposal tmProto.CanonicalProposal
-		if err := protoio.UnmarshalDelimited(signBytes, &proposal); err == nil {
+		if err := protoio.UnmarshalDelimited(signBytes, &proposal); err == nil && proposal.Type == tmProto.ProposalType {
 			return HRSTKey{proposal.Height, proposal.Round, stepPropose, proposal.Timestamp.UnixNano()}, nil
 		}
 	}
 
 	{
 		var vote tmProto.CanonicalVote
-		if err := protoio.UnmarshalDelimited(signBytes, &vote); err == nil {
+		if err := protoio.UnmarshalDelimited(signBytes, &vote); err == nil &&
+			(vote.Type == tmProto.PrevoteType || vote.Type == tmProto.PrecommitType) {
 			return HRSTKey{vote.Height, vote.Round, CanonicalVoteToStep(&vote), vote.Timestamp.UnixNano()}, nil
 		}
 	}
-- 
2.43.0


From d048381a87e0c59e78a165ca626f7182f04180e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:52 +0000
Subject: [PATCH 02/21] fix: write the sign state to disk before reporting a
 save as done

---
 signer/sign_state.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/signer/sign_state.go b/signer/sign_state.go
index 62a66ef..401b9fa 100644
--- a/signer/sign_state.go
+++ b/signer/sign_state.go
@@ -133,9 +133,8 @@ func (signState *SignState) Save(ssc SignStateConsensus, lock *sync.Mutex) error
 	signState.Step = ssc.Step
 	signState.Signature = ssc.Signature
 	signState.SignBytes = ssc.SignBytes
-	go func() {
-		signState.save()
-	}()
+	// The watermark must be on disk before the signature can be released.
+	signState.save()
 
 	return nil
 }
-- 
2.43.0


From 62456161bd4b87e6f8e35a7d0b972e55bf0383ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:46 +0000
Subject: [PATCH 03/21] fix: never sign two messages with one ephemeral secret

---
 signer/local_cosigner.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/signer/local_cosigner.go b/signer/local_cosigner.go
index 4ca652e..0463311 100644
--- a/signer/local_cosigner.go
+++ b/signer/local_cosigner.go
@@ -81,6 +81,10 @@ type HrsMetadata struct {
 	Secret      []byte
 	DealtShares []tsed25519.Scalar
 	Peers       []PeerMetadata
+
+	// what the ephemeral secret has been used to sign, nil if it has not been used yet
+	SignedBytes           []byte
+	SignedEphemeralPublic []byte
 }
 
 // LocalCosigner responds to sign requests using their share key
@@ -219,6 +223,16 @@ func (cosigner *LocalCosigner) sign(req CosignerSignRequest) (CosignerSignRespon
 		}
 	}
 
+	// An ephemeral secret that has signed one message must never sign another one, nor the same one under
+	// another combined ephemeral key: both would disclose the key share.
+	if meta.SignedBytes != nil &&
+		!(bytes.Equal(meta.SignedBytes, req.SignBytes) && bytes.Equal(meta.SignedEphemeralPublic, ephemeralPublic)) {
+		return res, errors.New("ephemeral secret has already been used to sign")
+	}
+	meta.SignedBytes = req.SignBytes
+	meta.SignedEphemeralPublic = ephemeralPublic
+	cosigner.hrsMeta[hrst] = meta
+
 	sig := tsed25519.SignWithShare(
 		req.SignBytes, cosigner.key.ShareKey, ephemeralShare, cosigner.pubKeyBytes, ephemeralPublic)
 
-- 
2.43.0


From b21d4c3dc4a7556b9af75b3317a7a3ea750043f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:06 +0000
Subject: [PATCH 04/21] fix: keep the ephemeral key that belongs to the
 recorded share

---
 signer/local_cosigner.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/signer/local_cosigner.go b/signer/local_cosigner.go
index 0463311..4b2b43d 100644
--- a/signer/local_cosigner.go
+++ b/signer/local_cosigner.go
@@ -236,6 +236,7 @@ func (cosigner *LocalCosigner) sign(req CosignerSignRequest) (CosignerSignRespon
 	sig := tsed25519.SignWithShare(
 		req.SignBytes, cosigner.key.ShareKey, ephemeralShare, cosigner.pubKeyBytes, ephemeralPublic)
 
+	lastEphemeralPublic := cosigner.lastSignState.EphemeralPublic
 	cosigner.lastSignState.EphemeralPublic = ephemeralPublic
 	err = cosigner.lastSignState.Save(SignStateConsensus{
 		Height:    hrst.Height,
@@ -246,6 +247,8 @@ func (cosigner *LocalCosigner) sign(req CosignerSignRequest) (CosignerSignRespon
 	}, nil)
 
 	if err != nil {
+		// the recorded signature is still the previous one, keep the ephemeral key that belongs to it
+		cosigner.lastSignState.EphemeralPublic = lastEphemeralPublic
 		if _, isSameHRSError := err.(*SameHRSError); !isSameHRSError {
 			return res, err
 		}
-- 
2.43.0


From cc4d0dfd6e9326107ac6b2dd00cd45ae8374fe8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:58 +0000
Subject: [PATCH 05/21] fix: deal a separate ephemeral secret for every
 timestamp

---
 signer/local_cosigner.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/signer/local_cosigner.go b/signer/local_cosigner.go
index 4b2b43d..3838847 100644
--- a/signer/local_cosigner.go
+++ b/signer/local_cosigner.go
@@ -457,9 +457,10 @@ func (cosigner *LocalCosigner) setEphemeralSecretPart(req CosignerSetEphemeralSe
 	// generate metadata placeholder
 	if !ok {
 		newMeta, err := cosigner.dealShares(CosignerGetEphemeralSecretPartRequest{
-			Height: req.Height,
-			Round:  req.Round,
-			Step:   req.Step,
+			Height:    req.Height,
+			Round:     req.Round,
+			Step:      req.Step,
+			Timestamp: req.Timestamp,
 		})
 
 		if err != nil {
-- 
2.43.0


From 55271d785639fd25733fd5a2ed4f9725ba0f7dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:34 +0000
Subject: [PATCH 06/21] fix: return a recorded proposal signature only for the
 bytes it signs

A second proposal for a height and round that was already signed got the
recorded signature, which does not verify for it.
---
 signer/threshold_validator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/signer/threshold_validator.go b/signer/threshold_validator.go
index 203a6d6..746aab7 100644
--- a/signer/threshold_validator.go
+++ b/signer/threshold_validator.go
@@ -269,8 +269,8 @@ func (pv *ThresholdValidator) getExistingBlockSignature(block *Block) ([]byte, t
 	}
 	latestBlock, existingSignature := pv.lastSignState.GetFromCache(hrs, &pv.lastSignStateMutex)
 	if existingSignature != nil {
-		// If a proposal has already been signed for this HRS, return that
-		if block.Step == stepPropose || bytes.Equal(signBytes, existingSignature.SignBytes) {
+		// If these exact bytes have already been signed for this HRS, return that
+		if bytes.Equal(signBytes, existingSignature.SignBytes) {
 			return existingSignature.Signature, block.Timestamp, nil
 		}
 		if err := existingSignature.OnlyDifferByTimestamp(signBytes); err != nil {
-- 
2.43.0


From 80199a418da4aeae70d085ec0af89a1f815e8308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:34 +0000
Subject: [PATCH 07/21] fix: refuse an older block that only differs by
 timestamp

The request was answered with neither a signature nor an error.
---
 signer/threshold_validator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/signer/threshold_validator.go b/signer/threshold_validator.go
index 746aab7..1d610c5 100644
--- a/signer/threshold_validator.go
+++ b/signer/threshold_validator.go
@@ -349,7 +349,7 @@ func (pv *ThresholdValidator) SignBlock(chainID string, block *Block) ([]byte, t
 			}
 		default:
 			existingSignature, existingTimestamp, sameBlockErr := pv.getExistingBlockSignature(block)
-			if sameBlockErr == nil {
+			if sameBlockErr == nil && existingSignature != nil {
 				return existingSignature, stamp, nil
 			}
 			return nil, existingTimestamp, pv.newBeyondBlockError(HRSKey{
-- 
2.43.0


From 0d5d87579cccc709abc9666a3fa8a8664e5acfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:00 +0000
Subject: [PATCH 08/21] fix: index share signatures by the highest cosigner ID

With fewer peers than shares, for instance after 'config peers remove', a
peer whose ID exceeds the number of peers crashed the signer.
---
 signer/threshold_validator.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/signer/threshold_validator.go b/signer/threshold_validator.go
index 1d610c5..f18d8d1 100644
--- a/signer/threshold_validator.go
+++ b/signer/threshold_validator.go
@@ -360,8 +360,13 @@ func (pv *ThresholdValidator) SignBlock(chainID string, block *Block) ([]byte, t
 		}
 	}
 
-	numPeers := len(pv.peers)
-	total := uint8(numPeers + 1)
+	// The shares are indexed by cosigner ID, and not every cosigner has to be a peer.
+	total := uint8(pv.cosigner.GetID())
+	for _, peer := range pv.peers {
+		if id := uint8(peer.GetID()); id > total {
+			total = id
+		}
+	}
 	getEphemeralWaitGroup := sync.WaitGroup{}
 
 	// Only wait until we have threshold sigs
-- 
2.43.0


From aa7ab2861efffd9c759984ec319e965925935d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:07 +0000
Subject: [PATCH 09/21] fix: answer malformed votes and proposals with an error

A request without a vote or proposal, with an unknown vote type or with a
block ID that has no canonical form crashed the signer.
---
 signer/remote_signer.go | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/signer/remote_signer.go b/signer/remote_signer.go
index 46555ab..cbe207c 100644
--- a/signer/remote_signer.go
+++ b/signer/remote_signer.go
@@ -1,6 +1,7 @@
 package signer
 
 import (
+	"errors"
 	"fmt"
 	"net"
 	"time"
@@ -138,11 +139,39 @@ func (rs *ReconnRemoteSigner) handleRequest(req tmProtoPrivval.Message) tmProtoP
 	}
 }
 
+// checkBlockID returns an error for block IDs that have no canonical form.
+func checkBlockID(blockID tmProto.BlockID) error {
+	_, err := tm.BlockIDFromProto(&blockID)
+	return err
+}
+
+func checkVote(vote *tmProto.Vote) error {
+	if vote == nil {
+		return errors.New("sign vote request without a vote")
+	}
+	if !tm.IsVoteTypeValid(vote.Type) {
+		return fmt.Errorf("unknown vote type %d", vote.Type)
+	}
+	return checkBlockID(vote.BlockID)
+}
+
+func checkProposal(proposal *tmProto.Proposal) error {
+	if proposal == nil {
+		return errors.New("sign proposal request without a proposal")
+	}
+	return checkBlockID(proposal.BlockID)
+}
+
 func (rs *ReconnRemoteSigner) handleSignVoteRequest(vote *tmProto.Vote) tmProtoPrivval.Message {
 	msgSum := &tmProtoPrivval.Message_SignedVoteResponse{SignedVoteResponse: &tmProtoPrivval.SignedVoteResponse{
 		Vote:  tmProto.Vote{},
 		Error: nil,
 	}}
+	if err := checkVote(vote); err != nil {
+		rs.Logger.Error("Malformed sign vote request", "address", rs.address, "error", err)
+		msgSum.SignedVoteResponse.Error = getRemoteSignerError(err)
+		return tmProtoPrivval.Message{Sum: msgSum}
+	}
 	if err := rs.privVal.SignVote(rs.chainID, vote); err != nil {
 		switch typedErr := err.(type) {
 		case *BeyondBlockError:
@@ -165,6 +194,11 @@ func (rs *ReconnRemoteSigner) handleSignProposalRequest(proposal *tmProto.Propos
 			Proposal: tmProto.Proposal{},
 			Error:    nil,
 		}}
+	if err := checkProposal(proposal); err != nil {
+		rs.Logger.Error("Malformed sign proposal request", "address", rs.address, "error", err)
+		msgSum.SignedProposalResponse.Error = getRemoteSignerError(err)
+		return tmProtoPrivval.Message{Sum: msgSum}
+	}
 	if err := rs.privVal.SignProposal(rs.chainID, proposal); err != nil {
 		switch typedErr := err.(type) {
 		case *BeyondBlockError:
-- 
2.43.0


From ba69fc80a48a028f7ecca6f8de0c24734852aec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:55 +0000
Subject: [PATCH 10/21] fix: refuse key sharings that do not exist

---
 signer/cosigner_key_shares.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/signer/cosigner_key_shares.go b/signer/cosigner_key_shares.go
index 7d51ab3..f2266cb 100644
--- a/signer/cosigner_key_shares.go
+++ b/signer/cosigner_key_shares.go
@@ -4,7 +4,9 @@ import (
 	"crypto/rand"
 	"crypto/rsa"
 	"encoding/json"
+	"fmt"
 	"io/ioutil"
+	"math"
 
 	tmjson "github.com/tendermint/tendermint/libs/json"
 	"github.com/tendermint/tendermint/privval"
@@ -22,6 +24,10 @@ func CreateCosignerSharesFromFile(priv string, threshold, shares int64) ([]Cosig
 
 // CreateCosignerShares creates cosigner key objects from a privval.FilePVKey
 func CreateCosignerShares(pv privval.FilePVKey, threshold, shares int64) (out []CosignerKey, err error) {
+	if threshold < 1 || shares < threshold || shares > math.MaxUint8 {
+		return nil, fmt.Errorf("cannot split a key into %d shares with threshold %d", shares, threshold)
+	}
+
 	privshares := tsed25519.DealShares(tsed25519.ExpandSecret(pv.PrivKey.Bytes()[:32]), uint8(threshold), uint8(shares))
 	rsaKeys, pubKeys, err := makeRSAKeys(len(privshares))
 	if err != nil {
-- 
2.43.0


From c065376ae98ca90248c7158bc44fc62f84a7ea34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:35 +0000
Subject: [PATCH 11/21] fix: refuse cosigner key files without a share or RSA
 public keys

---
 signer/cosigner_key.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/signer/cosigner_key.go b/signer/cosigner_key.go
index d6b3bd1..dbb0532 100644
--- a/signer/cosigner_key.go
+++ b/signer/cosigner_key.go
@@ -4,6 +4,8 @@ import (
 	"crypto/rsa"
 	"crypto/x509"
 	"encoding/json"
+	"errors"
+	"fmt"
 	"io/ioutil"
 
 	amino "github.com/tendermint/go-amino"
@@ -67,7 +69,7 @@ func (cosignerKey *CosignerKey) UnmarshalJSON(data []byte) error {
 	}{
 		Alias: (*Alias)(cosignerKey),
 	}
-	if err := json.Unmarshal(data, &aux); err != nil {
+	if err := json.Unmarshal(data, aux); err != nil {
 		return err
 	}
 	privateKey, err := x509.ParsePKCS1PrivateKey(aux.RSAKey)
@@ -112,6 +114,13 @@ func (cosignerKey *CosignerKey) UnmarshalJSON(data []byte) error {
 		cosignerKey.CosignerKeys = append(cosignerKey.CosignerKeys, cosignerRsaPubkey)
 	}
 
+	if len(cosignerKey.ShareKey) != 32 {
+		return fmt.Errorf("invalid secret_share length: got %d bytes, want 32", len(cosignerKey.ShareKey))
+	}
+	if len(cosignerKey.CosignerKeys) == 0 {
+		return errors.New("rsa_pubs is empty")
+	}
+
 	cosignerKey.RSAKey = *privateKey
 	cosignerKey.PubKey = pubkey
 	return nil
-- 
2.43.0


From 93247bbe29913049c87a470fb5c87752c17be88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:10 +0000
Subject: [PATCH 12/21] fix: check every chain node address

---
 cmd/horcrux/cmd/config.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/horcrux/cmd/config.go b/cmd/horcrux/cmd/config.go
index 052a7ce..1eec3c7 100644
--- a/cmd/horcrux/cmd/config.go
+++ b/cmd/horcrux/cmd/config.go
@@ -628,7 +628,9 @@ func parseChainNodes(nodes string) (out []ChainNode) {
 
 func validateChainNodes(nodes []ChainNode) (err error) {
 	for _, n := range nodes {
-		_, err = url.Parse(n.PrivValAddr)
+		if _, err = url.Parse(n.PrivValAddr); err != nil {
+			return err
+		}
 	}
-	return
+	return nil
 }
-- 
2.43.0


From af226dc89250244100de89753d712120be0c5bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:10 +0000
Subject: [PATCH 13/21] fix: refuse a share count that leaves no number for the
 local node

---
 cmd/horcrux/cmd/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/horcrux/cmd/config.go b/cmd/horcrux/cmd/config.go
index 1eec3c7..f00b935 100644
--- a/cmd/horcrux/cmd/config.go
+++ b/cmd/horcrux/cmd/config.go
@@ -576,7 +576,7 @@ func validateCosignerPeers(peers []CosignerPeer, shares int) error {
 
 	// Check that no more than {num-shares}-1 peers are in the peer list, assuming
 	// the remaining peer ID is the ID the local node is configured with.
-	if len(peers) == shares {
+	if len(peers) >= shares {
 		return fmt.Errorf("too many peers (%v+local node = %v) for the specified number of key shares (%v)",
 			len(peers), len(peers)+1, shares)
 	}
-- 
2.43.0


From 958934819db4e53e6d99c3a7f136aba4ac069f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:28 +0000
Subject: [PATCH 14/21] fix: carry out a chain ID change completely or not at
 all

---
 cmd/horcrux/cmd/config.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/cmd/horcrux/cmd/config.go b/cmd/horcrux/cmd/config.go
index f00b935..128150a 100644
--- a/cmd/horcrux/cmd/config.go
+++ b/cmd/horcrux/cmd/config.go
@@ -496,16 +496,26 @@ func setChainIDCmd() *cobra.Command {
 			}
 
 			stateDir := path.Join(home, "state")
-			pvOldPath := path.Join(stateDir, config.ChainID+"_priv_validator_state.json")
-			pvNewPath := path.Join(stateDir, args[0]+"_priv_validator_state.json")
-			shareOldPath := path.Join(stateDir, config.ChainID+"_share_sign_state.json")
-			shareNewPath := path.Join(stateDir, args[0]+"_share_sign_state.json")
+			stateFiles := []string{"_priv_validator_state.json"}
+			if config.CosignerConfig != nil {
+				stateFiles = append(stateFiles, "_share_sign_state.json")
+			}
 
-			if err = os.Rename(pvOldPath, pvNewPath); err != nil {
-				return err
+			// Check all state files before the first one is renamed, so that an edit that
+			// cannot be completed is not left half done.
+			for _, name := range stateFiles {
+				if _, err = os.Stat(path.Join(stateDir, config.ChainID+name)); err != nil {
+					return err
+				}
+				newPath := path.Join(stateDir, args[0]+name)
+				if _, err = os.Stat(newPath); args[0] != config.ChainID && !os.IsNotExist(err) {
+					return fmt.Errorf("%s already exists", newPath)
+				}
 			}
-			if err = os.Rename(shareOldPath, shareNewPath); err != nil {
-				return err
+			for _, name := range stateFiles {
+				if err = os.Rename(path.Join(stateDir, config.ChainID+name), path.Join(stateDir, args[0]+name)); err != nil {
+					return err
+				}
 			}
 
 			config.ChainID = args[0]
-- 
2.43.0


From 620928dae1004cbe8b48531fbcb093524079d206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:18 +0000
Subject: [PATCH 15/21] fix: start the single signer from its recorded sign
 state

---
 cmd/horcrux/cmd/signer.go | 14 ++++-------
 signer/file_pv.go         | 51 +++++++++++++++++++++++++++++++++++++++
 2 files changed, 56 insertions(+), 9 deletions(-)
 create mode 100644 signer/file_pv.go

diff --git a/cmd/horcrux/cmd/signer.go b/cmd/horcrux/cmd/signer.go
index 58819e7..82a59e8 100644
--- a/cmd/horcrux/cmd/signer.go
+++ b/cmd/horcrux/cmd/signer.go
@@ -10,7 +10,6 @@ import (
 	"github.com/strangelove-ventures/horcrux/signer"
 	tmlog "github.com/tendermint/tendermint/libs/log"
 	tmService "github.com/tendermint/tendermint/libs/service"
-	"github.com/tendermint/tendermint/privval"
 	"github.com/tendermint/tendermint/types"
 )
 
@@ -66,16 +65,13 @@ func StartSignerCmd() *cobra.Command {
 			logger.Info("Tendermint Validator", "mode", cfg.Mode,
 				"priv-key", cfg.PrivValKeyFile, "priv-state-dir", cfg.PrivValStateDir)
 
-			var val types.PrivValidator
 			stateFile := path.Join(cfg.PrivValStateDir, fmt.Sprintf("%s_priv_validator_state.json", chainID))
 
-			// Triple check that this is how we will handle state file and that this behaves as intended
-			// if f, err := os.Stat(stateFile); os.IsNotExist(err) || f.Size() == 0 {
-			//  	val = privval.LoadFilePVEmptyState(cfg.PrivValKeyFile, stateFile)
-			// 	} else {
-			//  	val = privval.LoadFilePV(cfg.PrivValKeyFile, stateFile)
-			//  }
-			val = privval.LoadFilePVEmptyState(cfg.PrivValKeyFile, stateFile)
+			// continue from the recorded state so that a restart does not permit a double sign
+			val, err := signer.LoadFilePV(cfg.PrivValKeyFile, stateFile)
+			if err != nil {
+				return err
+			}
 
 			pv = &signer.PvGuard{PrivValidator: val}
 
diff --git a/signer/file_pv.go b/signer/file_pv.go
new file mode 100644
index 0000000..2d25446
--- /dev/null
+++ b/signer/file_pv.go
@@ -0,0 +1,51 @@
+package signer
+
+import (
+	"fmt"
+	"io/ioutil"
+	"math"
+	"os"
+
+	tmJson "github.com/tendermint/tendermint/libs/json"
+	"github.com/tendermint/tendermint/privval"
+)
+
+// LoadFilePV loads the key and the last sign state of a single signer. The state file may be one that Tendermint
+// or a running single signer wrote, or one that horcrux initialized. A missing state file is an empty state, but one
+// that cannot be read is an error, since starting without the recorded state could result in a double sign.
+func LoadFilePV(keyFile, stateFile string) (*privval.FilePV, error) {
+	pv := privval.LoadFilePVEmptyState(keyFile, stateFile)
+
+	if _, err := os.Stat(stateFile); os.IsNotExist(err) {
+		return pv, nil
+	}
+
+	stateJSONBytes, err := ioutil.ReadFile(stateFile)
+	if err != nil {
+		return nil, err
+	}
+
+	var last privval.FilePVLastSignState
+	if err = tmJson.Unmarshal(stateJSONBytes, &last); err == nil {
+		pv.LastSignState.Height = last.Height
+		pv.LastSignState.Round = last.Round
+		pv.LastSignState.Step = last.Step
+		pv.LastSignState.Signature = last.Signature
+		pv.LastSignState.SignBytes = last.SignBytes
+		return pv, nil
+	}
+
+	signState, err := LoadSignState(stateFile)
+	if err != nil {
+		return nil, fmt.Errorf("error reading sign state from %s: %w", stateFile, err)
+	}
+	if signState.Round < 0 || signState.Round > math.MaxInt32 {
+		return nil, fmt.Errorf("error reading sign state from %s: invalid round %d", stateFile, signState.Round)
+	}
+	pv.LastSignState.Height = signState.Height
+	pv.LastSignState.Round = int32(signState.Round)
+	pv.LastSignState.Step = signState.Step
+	pv.LastSignState.Signature = signState.Signature
+	pv.LastSignState.SignBytes = signState.SignBytes
+	return pv, nil
+}
-- 
2.43.0


From f20955d4edbf6307a8c7b82fcef07c705c1441c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:30 +0000
Subject: [PATCH 16/21] fix: deal ephemeral secrets for every share of the key

---
 cmd/horcrux/cmd/cosigner.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/horcrux/cmd/cosigner.go b/cmd/horcrux/cmd/cosigner.go
index f11572c..8335feb 100644
--- a/cmd/horcrux/cmd/cosigner.go
+++ b/cmd/horcrux/cmd/cosigner.go
@@ -194,7 +194,8 @@ func StartCosignerCmd() *cobra.Command {
 				})
 			}
 
-			total := len(cfg.Cosigners) + 1
+			// secrets are dealt to every share of the key, whether or not its holder is a configured peer
+			total := len(key.CosignerKeys)
 			localCosignerConfig := signer.LocalCosignerConfig{
 				CosignerKey: key,
 				SignState:   &shareSignState,
-- 
2.43.0


From c5faf3b73a5397e1a6b513a6990070c84dff2809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:30 +0000
Subject: [PATCH 17/21] fix: wire the threshold validator before the raft store
 serves

---
 cmd/horcrux/cmd/cosigner.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/cmd/horcrux/cmd/cosigner.go b/cmd/horcrux/cmd/cosigner.go
index 8335feb..822d9e4 100644
--- a/cmd/horcrux/cmd/cosigner.go
+++ b/cmd/horcrux/cmd/cosigner.go
@@ -218,14 +218,9 @@ func StartCosignerCmd() *cobra.Command {
 			// RAFT node ID is the cosigner ID
 			nodeID := fmt.Sprint(key.ID)
 
-			// Start RAFT store listener
+			// RAFT store
 			raftStore := signer.NewRaftStore(nodeID,
 				raftDir, cfg.ListenAddress, timeout, logger, localCosigner, cosigners)
-			if err := raftStore.Start(); err != nil {
-				log.Fatalf("Error starting raft store: %v\n", err)
-			}
-			services = append(services, raftStore)
-
 			val = signer.NewThresholdValidator(&signer.ThresholdValidatorOpt{
 				Pubkey:    key.PubKey,
 				Threshold: cfg.CosignerThreshold,
@@ -238,6 +233,12 @@ func StartCosignerCmd() *cobra.Command {
 
 			raftStore.SetThresholdValidator(val.(*signer.ThresholdValidator))
 
+			// The store must be complete before it starts to serve requests and to apply the raft log
+			if err := raftStore.Start(); err != nil {
+				log.Fatalf("Error starting raft store: %v\n", err)
+			}
+			services = append(services, raftStore)
+
 			pv = &signer.PvGuard{PrivValidator: val}
 
 			pubkey, err := pv.GetPubKey()
-- 
2.43.0


From f2dc27813ac84a76d9134b6ba4179a696aa7044f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:59 +0000
Subject: [PATCH 18/21] fix: a leader asked to become the leader keeps
 leadership instead of handing it to another cosigner

---
 signer/grpc_server.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/signer/grpc_server.go b/signer/grpc_server.go
index e524a84..d068703 100644
--- a/signer/grpc_server.go
+++ b/signer/grpc_server.go
@@ -72,6 +72,13 @@ func (rpc *GRPCServer) TransferLeadership(
 ) (*proto.CosignerGRPCTransferLeadershipResponse, error) {
 	leaderID := req.GetLeaderID()
 	if leaderID != "" {
+		if leaderID == rpc.raftStore.NodeID && rpc.raftStore.raft.State() == raft.Leader {
+			// Already the leader, there is nothing to transfer
+			return &proto.CosignerGRPCTransferLeadershipResponse{
+				LeaderID:      leaderID,
+				LeaderAddress: p2pURLToRaftAddress(rpc.raftStore.RaftBind),
+			}, nil
+		}
 		for _, peer := range rpc.raftStore.Peers {
 			thisPeerID := fmt.Sprint(peer.GetID())
 			if thisPeerID == leaderID {
-- 
2.43.0


From adfc825b282ff7f8e64a2dfc2fe6776f2ee9c14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:45 +0000
Subject: [PATCH 19/21] fix: the connection to a chain node is closed when the
 handshake on it fails

---
 signer/remote_signer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/signer/remote_signer.go b/signer/remote_signer.go
index cbe207c..d7107d6 100644
--- a/signer/remote_signer.go
+++ b/signer/remote_signer.go
@@ -87,6 +87,7 @@ func (rs *ReconnRemoteSigner) loop() {
 			rs.Logger.Info("Connected", "address", rs.address)
 			conn, err = tmP2pConn.MakeSecretConnection(netConn, rs.privKey)
 			if err != nil {
+				netConn.Close()
 				conn = nil
 				rs.Logger.Error("Secret Conn", "err", err)
 				rs.Logger.Info("Retrying", "sleep (s)", 3, "address", rs.address)
-- 
2.43.0


From 81a60b84790e688400c9f2ff0a6ad4e6d2bdf5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:14 +0000
Subject: [PATCH 20/21] fix: a cosigner's own nonce takes part in every
 signature share

---
 signer/local_cosigner.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/signer/local_cosigner.go b/signer/local_cosigner.go
index 3838847..60d8d8c 100644
--- a/signer/local_cosigner.go
+++ b/signer/local_cosigner.go
@@ -295,6 +295,11 @@ func (cosigner *LocalCosigner) dealShares(req CosignerGetEphemeralSecretPartRequ
 	// !! dealt shares need to be saved because dealing produces different shares each time!
 	meta.DealtShares = tsed25519.DealShares(meta.Secret, cosigner.threshold, cosigner.total)
 
+	// Our own share takes part in every signature, even if we are never asked for our parts: without it, those who
+	// dealt the other parts could compute our key share from the signature.
+	meta.Peers[cosigner.key.ID-1].Share = meta.DealtShares[cosigner.key.ID-1]
+	meta.Peers[cosigner.key.ID-1].EphemeralSecretPublicKey = tsed25519.ScalarMultiplyBase(meta.Secret)
+
 	cosigner.hrsMeta[hrsKey] = meta
 
 	return meta, nil
-- 
2.43.0


From 7d95bda1f519919b3a0ed36b793a6859c4a73b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:24 +0000
Subject: [PATCH 21/21] fix: state set and state show work in a home directory
 that is given

---
 cmd/horcrux/cmd/state.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/horcrux/cmd/state.go b/cmd/horcrux/cmd/state.go
index d2ebbca..3edb25a 100644
--- a/cmd/horcrux/cmd/state.go
+++ b/cmd/horcrux/cmd/state.go
@@ -40,8 +40,8 @@ func showStateCmd() *cobra.Command {
 				home, _ := homedir.Dir()
 				stateDir = path.Join(home, ".horcrux", "state")
 			}
-			if _, err := os.Stat(homeDir); !os.IsNotExist(err) {
-				return fmt.Errorf("%s is not empty, check for existing configuration and clear path before trying again", homeDir)
+			if _, err := os.Stat(stateDir); os.IsNotExist(err) {
+				return fmt.Errorf("%s does not exist, initialize the configuration with horcrux config init first", stateDir)
 			}
 
 			filepath := path.Join(stateDir, config.ChainID+"_priv_validator_state.json")
@@ -85,8 +85,8 @@ func setStateCmd() *cobra.Command {
 				home, _ := homedir.Dir()
 				stateDir = path.Join(home, ".horcrux", "state")
 			}
-			if _, err := os.Stat(homeDir); !os.IsNotExist(err) {
-				return fmt.Errorf("%s is not empty, check for existing configuration and clear path before trying again", homeDir)
+			if _, err := os.Stat(stateDir); os.IsNotExist(err) {
+				return fmt.Errorf("%s does not exist, initialize the configuration with horcrux config init first", stateDir)
 			}
 
 			filepath := path.Join(stateDir, config.ChainID+"_priv_validator_state.json")
-- 
2.43.0

