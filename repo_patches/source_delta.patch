From e371be89ca89fe7d1beb90a37ca5e106ca77ecad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:20 +0000
Subject: [PATCH 01/48] fix: reject embedded proof lists without any proof

A credential or presentation whose "proof" member is an empty array was
accepted by the linked-data path although nothing was verified.
---
 verifiable/embedded_proof.go      | 4 ++++
 verifiable/lddocument/verifier.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/verifiable/embedded_proof.go b/verifiable/embedded_proof.go
index 0ecb2c2..73f00c6 100644
--- a/verifiable/embedded_proof.go
+++ b/verifiable/embedded_proof.go
@@ -55,6 +55,10 @@ func checkEmbeddedProof(jsonldDoc map[string]interface{}, expectedProofIssuer *s
 		return fmt.Errorf("check embedded proof: %w", err)
 	}
 
+	if len(proofs) == 0 {
+		return errors.New("proof not found")
+	}
+
 	if len(opts.externalContext) > 0 {
 		// Use external contexts for check of the linked data proofs to enrich JSON-LD context vocabulary.
 		jsonldDoc["@context"] = jsonld.AppendExternalContexts(jsonldDoc["@context"], opts.externalContext...)
diff --git a/verifiable/lddocument/verifier.go b/verifiable/lddocument/verifier.go
index 92d38ff..c02e8eb 100644
--- a/verifiable/lddocument/verifier.go
+++ b/verifiable/lddocument/verifier.go
@@ -58,6 +58,10 @@ func (dv *DocumentVerifier) VerifyObject(jsonLdObject map[string]interface{},
 		return err
 	}
 
+	if len(proofs) == 0 {
+		return proof.ErrProofNotFound
+	}
+
 	for _, p := range proofs {
 		message, err := proof.CreateVerifyData(&signatureSuiteWrapper{
 			wrapped:      dv.proofChecker,
-- 
2.43.0


From e2ec2229164c021e768af1638aa495bee4c0fb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:20 +0000
Subject: [PATCH 02/48] fix: verify each data integrity proof on its own, and
 at least one

An empty proof list was accepted, and the options filled in from one proof
(key, suite, dates) were reused for the next one.
---
 dataintegrity/verifier.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/dataintegrity/verifier.go b/dataintegrity/verifier.go
index 32068cc..c8d0a5b 100644
--- a/dataintegrity/verifier.go
+++ b/dataintegrity/verifier.go
@@ -100,8 +100,16 @@ func (v *Verifier) VerifyProof(doc []byte, opts *models.ProofOptions) error {
 		return ErrMalformedProof
 	}
 
-	for _, proof := range proofRaw.Array() {
-		if err = v.verifyProof([]byte(proof.Raw), unsecuredDoc, opts); err != nil {
+	proofs := proofRaw.Array()
+	if len(proofs) == 0 {
+		return ErrMissingProof
+	}
+
+	for _, proof := range proofs {
+		// Verification fills in missing options from the proof, so each proof needs options of its own.
+		proofOpts := *opts
+
+		if err = v.verifyProof([]byte(proof.Raw), unsecuredDoc, &proofOpts); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From b5fd1b0bd1a642105d917b62a0bc5a6d102c2f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:31 +0000
Subject: [PATCH 03/48] fix: bind data integrity proofs of a credential to its
 issuer

A credential whose data integrity proof was made by anyone was accepted as
issued by the issuer it names.
---
 verifiable/embedded_proof.go | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/verifiable/embedded_proof.go b/verifiable/embedded_proof.go
index 73f00c6..4fc04e7 100644
--- a/verifiable/embedded_proof.go
+++ b/verifiable/embedded_proof.go
@@ -9,6 +9,7 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"strings"
 
 	jsonld "github.com/trustbloc/did-go/doc/ld/processor"
 
@@ -74,7 +75,12 @@ func checkEmbeddedProof(jsonldDoc map[string]interface{}, expectedProofIssuer *s
 				return err
 			}
 
-			return checkDataIntegrityProof(docBytes, opts.dataIntegrityOpts)
+			err = checkDataIntegrityProof(docBytes, opts.dataIntegrityOpts)
+			if err != nil {
+				return err
+			}
+
+			return checkProofIssuer(proofs, expectedProofIssuer)
 		}
 	}
 
@@ -91,6 +97,33 @@ func checkEmbeddedProof(jsonldDoc map[string]interface{}, expectedProofIssuer *s
 	return nil
 }
 
+// checkProofIssuer checks that the verification method of each data integrity proof, decoded as the data integrity
+// verifier does, belongs to the expected issuer.
+func checkProofIssuer(proofs []map[string]interface{}, expectedProofIssuer *string) error {
+	if expectedProofIssuer == nil {
+		return nil
+	}
+
+	for _, p := range proofs {
+		proofBytes, err := json.Marshal(p)
+		if err != nil {
+			return err
+		}
+
+		proof := &models.Proof{}
+
+		if err = json.Unmarshal(proofBytes, proof); err != nil {
+			return err
+		}
+
+		if strings.Split(proof.VerificationMethod, "#")[0] != *expectedProofIssuer {
+			return fmt.Errorf("data integrity proof is not made by the issuer %q", *expectedProofIssuer)
+		}
+	}
+
+	return nil
+}
+
 func getProofs(proofElement interface{}) ([]map[string]interface{}, error) {
 	switch p := proofElement.(type) {
 	case map[string]interface{}:
-- 
2.43.0


From f2cd19bac7282f29fa5d7b9fb8eeb688f9b70ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:59 +0000
Subject: [PATCH 04/48] fix: check the proof of CWT presentations

A CWT presentation was accepted without looking at its COSE signature even
when proof checking was enabled, and one without a vp claim was accepted too.
---
 verifiable/presentation_parser.go | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/verifiable/presentation_parser.go b/verifiable/presentation_parser.go
index 97c6195..eef4716 100644
--- a/verifiable/presentation_parser.go
+++ b/verifiable/presentation_parser.go
@@ -16,7 +16,9 @@ import (
 	"github.com/samber/lo"
 	"github.com/veraison/go-cose"
 
+	"github.com/trustbloc/vc-go/cwt"
 	"github.com/trustbloc/vc-go/jwt"
+	cwt2 "github.com/trustbloc/vc-go/verifiable/cwt"
 )
 
 type parsePresentationResponse struct {
@@ -117,10 +119,9 @@ type VpCWT struct {
 type PresentationCWTParser struct {
 }
 
-func (p *PresentationCWTParser) parse(vpData []byte, _ *presentationOpts) (*parsePresentationResponse, error) {
+func (p *PresentationCWTParser) parse(vpData []byte, vpOpts *presentationOpts) (*parsePresentationResponse, error) {
 	var rawErr, hexRawErr, hexErr error
 
-	// todo proof checker !!
 	message, rawErr := p.parsePres(vpData)
 
 	if rawErr != nil {
@@ -141,6 +142,12 @@ func (p *PresentationCWTParser) parse(vpData []byte, _ *presentationOpts) (*pars
 		return nil, errors.Join(errors.New("parsed vp cbor message is nil"), rawErr, hexRawErr, hexErr)
 	}
 
+	if !vpOpts.disabledProofCheck {
+		if err := checkPresentationCWTProof(message, vpOpts.proofChecker); err != nil {
+			return nil, err
+		}
+	}
+
 	var vpMap map[interface{}]interface{}
 	if err := cbor.Unmarshal(message.Payload, &vpMap); err != nil {
 		return nil, fmt.Errorf("unmarshal cbor vp payload: %w", err)
@@ -150,7 +157,7 @@ func (p *PresentationCWTParser) parse(vpData []byte, _ *presentationOpts) (*pars
 
 	vpContent, ok := convertedMap["vp"].(map[string]interface{})
 	if !ok {
-		// do nothing
+		return nil, errors.New("vp field not found in cbor presentation")
 	}
 
 	return &parsePresentationResponse{
@@ -165,6 +172,24 @@ func (p *PresentationCWTParser) parse(vpData []byte, _ *presentationOpts) (*pars
 	}, nil
 }
 
+func checkPresentationCWTProof(message *cose.Sign1Message, proofChecker cwt.ProofChecker) error {
+	if proofChecker == nil {
+		return errors.New("proof checker is not defined")
+	}
+
+	proofValue, err := cwt2.GetProofValue(message)
+	if err != nil {
+		return err
+	}
+
+	err = cwt.CheckProof(message, proofChecker, nil, proofValue, message.Signature)
+	if err != nil {
+		return fmt.Errorf("CWT proof check: %w", err)
+	}
+
+	return nil
+}
+
 func (p *PresentationCWTParser) parsePres(data []byte) (*cose.Sign1Message, error) {
 	var message cose.Sign1Message
 
-- 
2.43.0


From 4c1d65f0e78715512715e32820995778e8f71acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:51 +0000
Subject: [PATCH 05/48] fix: keep the order of SD-JWT disclosures

Disclosures were returned and presented in the random order of a map, so
serialising a parsed credential again could give a different token.
---
 sdjwt/common/common.go         | 11 +++++++++++
 verifiable/credential_sdjwt.go | 17 ++++++++---------
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/sdjwt/common/common.go b/sdjwt/common/common.go
index 98f8264..db384df 100644
--- a/sdjwt/common/common.go
+++ b/sdjwt/common/common.go
@@ -12,6 +12,7 @@ import (
 	"errors"
 	"fmt"
 	"reflect"
+	"sort"
 	"strings"
 )
 
@@ -144,6 +145,16 @@ func GetDisclosureClaims(
 		final = append(final, disclosureClaim)
 	}
 
+	// Keep the order in which the disclosures were given.
+	order := make(map[string]int, len(disclosures))
+	for i, disclosure := range disclosures {
+		order[disclosure] = i
+	}
+
+	sort.Slice(final, func(i, j int) bool {
+		return order[final[i].Disclosure] < order[final[j].Disclosure]
+	})
+
 	return final, nil
 }
 
diff --git a/verifiable/credential_sdjwt.go b/verifiable/credential_sdjwt.go
index 380cc19..56226f0 100644
--- a/verifiable/credential_sdjwt.go
+++ b/verifiable/credential_sdjwt.go
@@ -247,20 +247,19 @@ func filterDisclosures(
 		}
 	}
 
-	var out []*common.DisclosureClaim
-
-	for _, claim := range ifAvailMap {
-		if claim != nil {
-			out = append(out, claim)
-		}
-	}
-
 	for _, claim := range reqMap {
 		if claim == nil {
 			return nil, errors.New("disclosure list missing required claim")
 		}
+	}
 
-		out = append(out, claim)
+	var out []*common.DisclosureClaim
+
+	// Keep the order of the credential's disclosures.
+	for _, disclosure := range disclosures {
+		if ifAvailMap[disclosure.Name] == disclosure || reqMap[disclosure.Name] == disclosure {
+			out = append(out, disclosure)
+		}
 	}
 
 	return out, nil
-- 
2.43.0


From 56575fa8c37ee6a608f7e240baeade7ec024dade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:58 +0000
Subject: [PATCH 06/48] fix: sign the verification method identifier that a
 data integrity proof names

---
 dataintegrity/signer.go                    |  8 ++++----
 dataintegrity/suite/ecdsa2019/ecdsa2019.go | 13 +++++++++++--
 dataintegrity/suite/eddsa2022/eddsa2022.go | 13 +++++++++++--
 3 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/dataintegrity/signer.go b/dataintegrity/signer.go
index bc72f6b..79c6427 100644
--- a/dataintegrity/signer.go
+++ b/dataintegrity/signer.go
@@ -135,11 +135,11 @@ func (s *Signer) AddProof(doc []byte, opts *models.ProofOptions) ([]byte, error)
 }
 
 func resolveVM(opts *models.ProofOptions, resolver didResolver, vmID string) error {
-	if opts.VerificationMethod == nil {
-		if opts.VerificationMethodID == "" {
-			opts.VerificationMethodID = vmID
-		}
+	if opts.VerificationMethodID == "" {
+		opts.VerificationMethodID = vmID
+	}
 
+	if opts.VerificationMethod == nil {
 		if resolver == nil {
 			return ErrNoResolver
 		}
diff --git a/dataintegrity/suite/ecdsa2019/ecdsa2019.go b/dataintegrity/suite/ecdsa2019/ecdsa2019.go
index ea79497..831d916 100644
--- a/dataintegrity/suite/ecdsa2019/ecdsa2019.go
+++ b/dataintegrity/suite/ecdsa2019/ecdsa2019.go
@@ -217,7 +217,7 @@ func (s *Suite) CreateProof(doc []byte, opts *models.ProofOptions) (*models.Proo
 		ProofPurpose:       opts.Purpose,
 		Domain:             opts.Domain,
 		Challenge:          opts.Challenge,
-		VerificationMethod: opts.VerificationMethod.ID,
+		VerificationMethod: verificationMethodID(opts),
 		ProofValue:         sigStr,
 		Created:            opts.Created.Format(models.DateTimeFormat),
 		Expires:            expires,
@@ -404,7 +404,7 @@ func proofConfig(docCtx interface{}, opts *models.ProofOptions) map[string]inter
 		ldCtxKey:             docCtx,
 		"type":               models.DataIntegrityProof,
 		"cryptosuite":        opts.SuiteType,
-		"verificationMethod": opts.VerificationMethodID,
+		"verificationMethod": verificationMethodID(opts),
 		"proofPurpose":       opts.Purpose,
 	}
 
@@ -427,6 +427,15 @@ func proofConfig(docCtx interface{}, opts *models.ProofOptions) map[string]inter
 	return proof
 }
 
+// verificationMethodID is the identifier of the verification method that is signed and emitted.
+func verificationMethodID(opts *models.ProofOptions) string {
+	if opts.VerificationMethodID != "" {
+		return opts.VerificationMethodID
+	}
+
+	return opts.VerificationMethod.ID
+}
+
 func sign(sigBase []byte, key *jwk.JWK, signerGetter SignerGetter) ([]byte, error) {
 	signer, err := signerGetter(key)
 	if err != nil {
diff --git a/dataintegrity/suite/eddsa2022/eddsa2022.go b/dataintegrity/suite/eddsa2022/eddsa2022.go
index d6c5dbe..297775c 100644
--- a/dataintegrity/suite/eddsa2022/eddsa2022.go
+++ b/dataintegrity/suite/eddsa2022/eddsa2022.go
@@ -200,7 +200,7 @@ func (s *Suite) CreateProof(doc []byte, opts *models.ProofOptions) (*models.Proo
 		ProofPurpose:       opts.Purpose,
 		Domain:             opts.Domain,
 		Challenge:          opts.Challenge,
-		VerificationMethod: opts.VerificationMethod.ID,
+		VerificationMethod: verificationMethodID(opts),
 		ProofValue:         sigStr,
 		Created:            opts.Created.Format(models.DateTimeFormat),
 		Expires:            expires,
@@ -316,7 +316,7 @@ func proofConfig(docCtx interface{}, opts *models.ProofOptions) map[string]inter
 		ldCtxKey:             docCtx,
 		"type":               models.DataIntegrityProof,
 		"cryptosuite":        suiteType,
-		"verificationMethod": opts.VerificationMethodID,
+		"verificationMethod": verificationMethodID(opts),
 		"proofPurpose":       opts.Purpose,
 	}
 
@@ -339,6 +339,15 @@ func proofConfig(docCtx interface{}, opts *models.ProofOptions) map[string]inter
 	return proof
 }
 
+// verificationMethodID is the identifier of the verification method that is signed and emitted.
+func verificationMethodID(opts *models.ProofOptions) string {
+	if opts.VerificationMethodID != "" {
+		return opts.VerificationMethodID
+	}
+
+	return opts.VerificationMethod.ID
+}
+
 func sign(sigBase []byte, key *jwk.JWK, signerGetter SignerGetter) ([]byte, error) {
 	signer, err := signerGetter(key)
 	if err != nil {
-- 
2.43.0


From af28fbd71073b3516b2f896f4f51bb90a4dd42de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:17 +0000
Subject: [PATCH 07/48] fix: emit the eddsa cryptosuite that was signed

---
 dataintegrity/suite/eddsa2022/eddsa2022.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataintegrity/suite/eddsa2022/eddsa2022.go b/dataintegrity/suite/eddsa2022/eddsa2022.go
index 297775c..c21a2e1 100644
--- a/dataintegrity/suite/eddsa2022/eddsa2022.go
+++ b/dataintegrity/suite/eddsa2022/eddsa2022.go
@@ -196,7 +196,7 @@ func (s *Suite) CreateProof(doc []byte, opts *models.ProofOptions) (*models.Proo
 
 	p := &models.Proof{
 		Type:               models.DataIntegrityProof,
-		CryptoSuite:        SuiteType,
+		CryptoSuite:        opts.SuiteType,
 		ProofPurpose:       opts.Purpose,
 		Domain:             opts.Domain,
 		Challenge:          opts.Challenge,
-- 
2.43.0


From 5567c3e69652e8965640676e1a02f7e2dbeb7dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:35 +0000
Subject: [PATCH 08/48] fix: emit a data integrity creation date only when it
 was signed

---
 dataintegrity/suite/ecdsa2019/ecdsa2019.go | 8 ++++++--
 dataintegrity/suite/eddsa2022/eddsa2022.go | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/dataintegrity/suite/ecdsa2019/ecdsa2019.go b/dataintegrity/suite/ecdsa2019/ecdsa2019.go
index 831d916..029844a 100644
--- a/dataintegrity/suite/ecdsa2019/ecdsa2019.go
+++ b/dataintegrity/suite/ecdsa2019/ecdsa2019.go
@@ -206,7 +206,11 @@ func (s *Suite) CreateProof(doc []byte, opts *models.ProofOptions) (*models.Proo
 		return nil, err
 	}
 
-	var expires string
+	var created, expires string
+	if !opts.Created.IsZero() {
+		created = opts.Created.Format(models.DateTimeFormat)
+	}
+
 	if !opts.Expires.IsZero() {
 		expires = opts.Expires.Format(models.DateTimeFormat)
 	}
@@ -219,7 +223,7 @@ func (s *Suite) CreateProof(doc []byte, opts *models.ProofOptions) (*models.Proo
 		Challenge:          opts.Challenge,
 		VerificationMethod: verificationMethodID(opts),
 		ProofValue:         sigStr,
-		Created:            opts.Created.Format(models.DateTimeFormat),
+		Created:            created,
 		Expires:            expires,
 	}
 
diff --git a/dataintegrity/suite/eddsa2022/eddsa2022.go b/dataintegrity/suite/eddsa2022/eddsa2022.go
index c21a2e1..a455484 100644
--- a/dataintegrity/suite/eddsa2022/eddsa2022.go
+++ b/dataintegrity/suite/eddsa2022/eddsa2022.go
@@ -189,7 +189,11 @@ func (s *Suite) CreateProof(doc []byte, opts *models.ProofOptions) (*models.Proo
 		return nil, err
 	}
 
-	var expires string
+	var created, expires string
+	if !opts.Created.IsZero() {
+		created = opts.Created.Format(models.DateTimeFormat)
+	}
+
 	if !opts.Expires.IsZero() {
 		expires = opts.Expires.Format(models.DateTimeFormat)
 	}
@@ -202,7 +206,7 @@ func (s *Suite) CreateProof(doc []byte, opts *models.ProofOptions) (*models.Proo
 		Challenge:          opts.Challenge,
 		VerificationMethod: verificationMethodID(opts),
 		ProofValue:         sigStr,
-		Created:            opts.Created.Format(models.DateTimeFormat),
+		Created:            created,
 		Expires:            expires,
 	}
 
-- 
2.43.0


From 30a12b847c608b34b47db8e6838e7006faa4830c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:55 +0000
Subject: [PATCH 09/48] fix: cover the domain and challenge of a data integrity
 proof by its signature

---
 dataintegrity/verifier.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dataintegrity/verifier.go b/dataintegrity/verifier.go
index c8d0a5b..3f117a9 100644
--- a/dataintegrity/verifier.go
+++ b/dataintegrity/verifier.go
@@ -184,8 +184,6 @@ func (v *Verifier) verifyProof( // nolint:funlen,gocyclo
 		return err
 	}
 
-	verifyResult := verifierSuite.VerifyProof(unsecuredDoc, proof, opts)
-
 	if opts.Domain != "" && opts.Domain != proof.Domain {
 		return ErrInvalidDomain
 	}
@@ -194,5 +192,8 @@ func (v *Verifier) verifyProof( // nolint:funlen,gocyclo
 		return ErrInvalidChallenge
 	}
 
-	return verifyResult
+	// The signature covers the proof's own domain and challenge, also when no particular ones are expected.
+	opts.Domain, opts.Challenge = proof.Domain, proof.Challenge
+
+	return verifierSuite.VerifyProof(unsecuredDoc, proof, opts)
 }
-- 
2.43.0


From eb96dcfe2b0c727ef76e2d46174732229031a494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:50 +0000
Subject: [PATCH 10/48] fix: reject SD-JWT disclosures with a reserved claim
 name

---
 sdjwt/common/verification.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sdjwt/common/verification.go b/sdjwt/common/verification.go
index fc72bda..6131979 100644
--- a/sdjwt/common/verification.go
+++ b/sdjwt/common/verification.go
@@ -375,6 +375,11 @@ func enrichWithSDElement(claim *DisclosureClaim, disclosureElementsArr []interfa
 		return fmt.Errorf("disclosure name type[%T] must be string", disclosureElementsArr[1])
 	}
 
+	if name == SDKey || name == ArrayElementDigestKey {
+		// If the claim name is _sd or ..., the SD-JWT MUST be rejected.
+		return fmt.Errorf("disclosure name '%s' is reserved", name)
+	}
+
 	claim.Name = name
 	claim.Value = disclosureElementsArr[sdDigestValuePosition]
 
-- 
2.43.0


From 6aa15984bdc1a6548f7a2df11a2149843f69edcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:02 +0000
Subject: [PATCH 11/48] fix: do not return SD-JWT decoy digests as disclosures

---
 sdjwt/issuer/v5.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sdjwt/issuer/v5.go b/sdjwt/issuer/v5.go
index 8966af0..3aecb32 100644
--- a/sdjwt/issuer/v5.go
+++ b/sdjwt/issuer/v5.go
@@ -96,12 +96,14 @@ func (s *SDJWTBuilderV5) createDisclosuresAndDigestsInternal(
 	ignorePrimitives bool,
 ) ([]*DisclosureEntity, map[string]interface{}, error) {
 	digestsMap := map[string]interface{}{}
-	finalSDDigest, err := createDecoyDisclosures(opts)
+	decoyDisclosures, err := createDecoyDisclosures(opts)
 
 	if err != nil {
 		return nil, nil, fmt.Errorf("failed to create decoy disclosures: %w", err)
 	}
 
+	var finalSDDigest []*DisclosureEntity
+
 	var allDisclosures []*DisclosureEntity
 
 	for key, value := range claims {
@@ -237,7 +239,7 @@ func (s *SDJWTBuilderV5) createDisclosuresAndDigestsInternal(
 		}
 	}
 
-	digests, err := createDigests(finalSDDigest, opts)
+	digests, err := createDigests(append(finalSDDigest, decoyDisclosures...), opts)
 
 	if err != nil {
 		return nil, nil, err
-- 
2.43.0


From c79aeead642ef2b650d54f5d21bcd2341cec1219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:23 +0000
Subject: [PATCH 12/48] fix: issue SD-JWT V5 claims whose value is null

---
 sdjwt/issuer/v5.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdjwt/issuer/v5.go b/sdjwt/issuer/v5.go
index 3aecb32..ce32cbd 100644
--- a/sdjwt/issuer/v5.go
+++ b/sdjwt/issuer/v5.go
@@ -112,7 +112,7 @@ func (s *SDJWTBuilderV5) createDisclosuresAndDigestsInternal(
 			curPath = path + "." + key
 		}
 
-		kind := reflect.TypeOf(value).Kind()
+		kind := reflect.ValueOf(value).Kind()
 
 		valOption := s.extractValueOptions(curPath, opts)
 
-- 
2.43.0


From 10025ce4af198cb3d9c1521278dfc9ad061a78e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:50 +0000
Subject: [PATCH 13/48] fix: use the concurrency-safe random source when
 issuing SD-JWTs

---
 sdjwt/issuer/issuer.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/sdjwt/issuer/issuer.go b/sdjwt/issuer/issuer.go
index 6390df7..22f9401 100644
--- a/sdjwt/issuer/issuer.go
+++ b/sdjwt/issuer/issuer.go
@@ -49,7 +49,6 @@ import (
 	"fmt"
 	mathrand "math/rand"
 	"strings"
-	"time"
 
 	"github.com/go-jose/go-jose/v3/jwt"
 
@@ -72,8 +71,6 @@ const (
 	vcKey                = "vc"
 )
 
-var mr = mathrand.New(mathrand.NewSource(time.Now().Unix())) // nolint:gochecknoglobals
-
 // Claims defines JSON Web Token Claims (https://tools.ietf.org/html/rfc7519#section-4)
 type Claims jwt.Claims
 
@@ -504,7 +501,7 @@ func createDigests(disclosures []*DisclosureEntity, nOpts *newOpts) ([]string, e
 		digests = append(digests, digest)
 	}
 
-	mr.Shuffle(len(digests), func(i, j int) {
+	mathrand.Shuffle(len(digests), func(i, j int) {
 		digests[i], digests[j] = digests[j], digests[i]
 	})
 
@@ -527,7 +524,7 @@ func createDecoyDisclosures(opts *newOpts) ([]*DisclosureEntity, error) {
 		return nil, nil
 	}
 
-	n := mr.Intn(decoyMaxElements-decoyMinElements+1) + decoyMinElements
+	n := mathrand.Intn(decoyMaxElements-decoyMinElements+1) + decoyMinElements
 
 	var decoyDisclosures []*DisclosureEntity
 
-- 
2.43.0


From 41b640a7f85e488b808094aa0e6086c1176b2f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:26 +0000
Subject: [PATCH 14/48] fix: status list VC without a subject is an error, not
 a panic

---
 status/status.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/status/status.go b/status/status.go
index 1b2c8a1..c042831 100644
--- a/status/status.go
+++ b/status/status.go
@@ -92,6 +92,9 @@ func (c *Client) verifyStatus( //nolint:gocyclo,funlen
 	}
 
 	credSubject := statusListVCC.Subject
+	if len(credSubject) == 0 {
+		return errors.New("status list vc has no credential subject")
+	}
 
 	encodedList, ok := credSubject[0].CustomFields["encodedList"].(string)
 	if !ok {
-- 
2.43.0


From fd706f1ada23a7de2424a53ad92bb03c37f098ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:09 +0000
Subject: [PATCH 15/48] fix: related resource responses with an error status
 have their body closed

---
 verifiable/related_resource.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/verifiable/related_resource.go b/verifiable/related_resource.go
index 03fdae4..67d380f 100644
--- a/verifiable/related_resource.go
+++ b/verifiable/related_resource.go
@@ -81,6 +81,12 @@ func (r *RelatedResourceValidator) Fetch(targetURL string) (*CachedResource, err
 		return nil, errors.Join(err, fmt.Errorf("fetch related resource: %s", targetURL))
 	}
 
+	if resp.Body != nil {
+		defer func() {
+			_ = resp.Body.Close() // nolint:errcheck
+		}()
+	}
+
 	if resp.StatusCode != http.StatusOK {
 		return nil, errors.Join(fmt.Errorf("related resource fetch failed with status code: %d",
 			resp.StatusCode))
@@ -92,10 +98,6 @@ func (r *RelatedResourceValidator) Fetch(targetURL string) (*CachedResource, err
 
 	var data []byte
 
-	defer func() {
-		_ = resp.Body.Close() // nolint:errcheck
-	}()
-
 	data, err = io.ReadAll(resp.Body)
 	if err != nil {
 		return nil, errors.Join(err, fmt.Errorf("read related resource: %s", targetURL))
-- 
2.43.0


From 652fd3766e7b34fec7014bb2fe0f6bdb9c85d8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 16/48] fix: linked credentials without issuer or subject are
 skipped, not a panic

---
 didconfig/verifier/didconfig.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/didconfig/verifier/didconfig.go b/didconfig/verifier/didconfig.go
index 3ec3599..44b76ff 100644
--- a/didconfig/verifier/didconfig.go
+++ b/didconfig/verifier/didconfig.go
@@ -318,6 +318,10 @@ func validateSubject(subject interface{}, did, origin string) error {
 			return errors.New("encountered multiple subjects")
 		}
 
+		if len(s) == 0 {
+			return errors.New("subject MUST be present")
+		}
+
 		subject := s[0]
 
 		if subject.ID == "" {
@@ -411,9 +415,9 @@ func getCredentials(linkedDIDs []interface{}, did, domain string, opts ...verifi
 			continue
 		}
 
-		if vc.Contents().Issuer.ID != did {
-			debugLogger.Printf("skipping credential since issuer[%s] is different from DID[%s]",
-				vc.Contents().Issuer.ID, did)
+		issuer := vc.Contents().Issuer
+		if issuer == nil || issuer.ID != did {
+			debugLogger.Printf("skipping credential since issuer[%v] is different from DID[%s]", issuer, did)
 
 			continue
 		}
-- 
2.43.0


From 8e5ab077f070e3086bb5cb338eb12d5f6bec1899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:41 +0000
Subject: [PATCH 17/48] fix: evaluate each path of a presentation exchange
 field once and in a fixed order

---
 presexch/definition.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index 6b3b4f5..26b104f 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -1481,7 +1481,7 @@ func filterField(f *Field, credential map[string]interface{}, isJWTCredential bo
 			return nil
 		}
 
-		lastErr = errors.Join(lastErr, checkPathValue(isJWTCredential, path, credential, f, schema))
+		lastErr = errors.Join(lastErr, err)
 	}
 
 	return lastErr
@@ -1518,14 +1518,14 @@ func checkPathValue(
 	schema gojsonschema.JSONLoader,
 ) error {
 	if isJWTCredential { // compatibility
-		replacements := map[string]string{
-			"$.vc.":   "$.",
-			"$.vc[":   "$[",
-			"$['vc']": "$",
+		replacements := [][2]string{
+			{"$.vc.", "$."},
+			{"$.vc[", "$["},
+			{"$['vc']", "$"},
 		}
 
-		for old, newVal := range replacements {
-			path = strings.Replace(path, old, newVal, 1)
+		for _, r := range replacements {
+			path = strings.Replace(path, r[0], r[1], 1)
 		}
 
 		if strings.EqualFold(path, "$.issuer") {
-- 
2.43.0


From 183448fed69f883b078185e6236e637937c8e5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:35 +0000
Subject: [PATCH 18/48] fix: report the error of a failed schema filter when
 matching a submission

---
 presexch/api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/presexch/api.go b/presexch/api.go
index 9d8031a..ccba230 100644
--- a/presexch/api.go
+++ b/presexch/api.go
@@ -222,7 +222,7 @@ func getMatchedCreds( //nolint:gocyclo,funlen
 
 			passed, fltErr := filterSchema(inputDescriptor.Schema, []*verifiable.Credential{vc}, contextLoader)
 			if fltErr != nil {
-				return nil, err
+				return nil, fltErr
 			}
 
 			if len(passed) == 0 && !opts.DisableSchemaValidation {
-- 
2.43.0


From 3c249f38e529c79744b32a354745a6454fbb5f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:45 +0000
Subject: [PATCH 19/48] fix: limit the disclosures of a copy of an SD-JWT
 credential, per descriptor

---
 presexch/definition.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/presexch/definition.go b/presexch/definition.go
index 26b104f..bfbd7d3 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -1116,10 +1116,22 @@ func limitDisclosure(filterResults []constraintsFilterResult,
 				return nil, err
 			}
 
+			// the credential belongs to the caller and may be limited differently for another descriptor
+			limited := *credential
+
+			if credential.JWTEnvelope != nil {
+				envelope := *credential.JWTEnvelope
+				limited.JWTEnvelope = &envelope
+			}
+
+			credential = &limited
+
 			err = credential.SetSDJWTDisclosures(limitedDisclosures)
 			if err != nil {
 				return nil, err
 			}
+
+			uniqueCredID = tmpID(credentialContents.ID)
 		}
 
 		result = append(result, &credWrapper{uniqueID: uniqueCredID, vc: credential})
-- 
2.43.0


From 973227d4ee73754de490dd7668c40ed8b2f1b0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:03 +0000
Subject: [PATCH 20/48] fix: keep credentials without an id apart when creating
 a presentation

---
 presexch/definition.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index bfbd7d3..22a0ec8 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -1033,7 +1033,7 @@ func limitDisclosure(filterResults []constraintsFilterResult,
 		credentialSrc := filtered.credentialSrc
 
 		if constraints == nil {
-			result = append(result, &credWrapper{uniqueID: credentialContents.ID, vc: credential})
+			result = append(result, &credWrapper{uniqueID: uniqueID(credential), vc: credential})
 			continue
 		}
 
@@ -1050,7 +1050,7 @@ func limitDisclosure(filterResults []constraintsFilterResult,
 			continue
 		}
 
-		uniqueCredID := credentialContents.ID
+		uniqueCredID := uniqueID(credential)
 
 		// Non-SDJWT case.
 		//nolint:nestif
@@ -1271,6 +1271,15 @@ func copyOnlySubjectIDs(subject []verifiable.Subject) interface{} {
 	return withOnlyIDs
 }
 
+// uniqueID tells credentials apart; credentials are not required to have an id.
+func uniqueID(credential *verifiable.Credential) string {
+	if id := credential.Contents().ID; id != "" {
+		return id
+	}
+
+	return fmt.Sprintf("%p", credential)
+}
+
 func tmpID(id string) string {
 	return id + tmpEnding + uuid.New().String()
 }
-- 
2.43.0


From 212923ff79929b5e70ecaca7f9589bd3e9a9ddbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:50 +0000
Subject: [PATCH 21/48] fix: do not disclose array elements of claims a
 descriptor did not ask for

---
 presexch/definition.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index 22a0ec8..b5a0c9e 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -1182,7 +1182,8 @@ func getLimitedDisclosures(constraints *Constraints, displaySrc []byte, credenti
 				disclosuresMap[dc.Digest] = dc
 			}
 
-			arrayElements := ExtractArrayValuesForSDJWTV5(parentObj)
+			// only the elements of the requested claim: the others were not asked for
+			arrayElements := ExtractArrayValuesForSDJWTV5(map[string]interface{}{key: parentObj[key]})
 			for _, elem := range arrayElements {
 				dis, disOk := disclosuresMap[elem]
 				if disOk {
-- 
2.43.0


From d9c43c47ec8f31cd4937d346764372547e576c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:18 +0000
Subject: [PATCH 22/48] fix: report digest failures of linked data proofs

---
 verifiable/lddocument/signer.go   | 10 ++++++++--
 verifiable/lddocument/verifier.go | 20 +++++++++++++++-----
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/verifiable/lddocument/signer.go b/verifiable/lddocument/signer.go
index 39a844d..54109e6 100644
--- a/verifiable/lddocument/signer.go
+++ b/verifiable/lddocument/signer.go
@@ -106,14 +106,20 @@ func (ds *DocumentSigner) signObject(context *SigningContext, jsonLdObject map[s
 		p.JWS = proof.CreateDetachedJWTHeader(jwtAlg) + ".."
 	}
 
-	message, err := proof.CreateVerifyData(&signatureSuiteWrapper{
+	suite := &signatureSuiteWrapper{
 		wrapped: ds.signer,
 		proof:   p,
-	}, jsonLdObject, p, append(opts, processor.WithValidateRDF())...)
+	}
+
+	message, err := proof.CreateVerifyData(suite, jsonLdObject, p, append(opts, processor.WithValidateRDF())...)
 	if err != nil {
 		return err
 	}
 
+	if suite.digestErr != nil {
+		return suite.digestErr
+	}
+
 	s, err := ds.signer.SignLinkedDocument(p, context.KeyType, message)
 	if err != nil {
 		return err
diff --git a/verifiable/lddocument/verifier.go b/verifiable/lddocument/verifier.go
index c02e8eb..7adcbd3 100644
--- a/verifiable/lddocument/verifier.go
+++ b/verifiable/lddocument/verifier.go
@@ -63,15 +63,21 @@ func (dv *DocumentVerifier) VerifyObject(jsonLdObject map[string]interface{},
 	}
 
 	for _, p := range proofs {
-		message, err := proof.CreateVerifyData(&signatureSuiteWrapper{
+		suite := &signatureSuiteWrapper{
 			wrapped:      dv.proofChecker,
 			proof:        p,
 			compactProof: dv.compactProof,
-		}, jsonLdObject, p, opts...)
+		}
+
+		message, err := proof.CreateVerifyData(suite, jsonLdObject, p, opts...)
 		if err != nil {
 			return err
 		}
 
+		if suite.digestErr != nil {
+			return suite.digestErr
+		}
+
 		signature, err := getProofVerifyValue(p)
 		if err != nil {
 			return err
@@ -120,6 +126,7 @@ type signatureSuiteWrapper struct {
 	wrapped      signatureSuiteCompatible
 	proof        *proof.Proof
 	compactProof bool
+	digestErr    error
 }
 
 // GetCanonicalDocument will return normalized/canonical version of the document.
@@ -128,10 +135,13 @@ func (w *signatureSuiteWrapper) GetCanonicalDocument(doc map[string]interface{},
 	return w.wrapped.GetLDPCanonicalDocument(w.proof, doc, opts...)
 }
 
-// GetDigest returns document digest.
+// GetDigest returns document digest. The interface has no room for an error, so it is kept in digestErr.
 func (w *signatureSuiteWrapper) GetDigest(doc []byte) []byte {
-	// error will handled after did-go refactoring
-	digest, _ := w.wrapped.GetLDPDigest(w.proof, doc) //nolint: errcheck
+	digest, err := w.wrapped.GetLDPDigest(w.proof, doc)
+	if err != nil {
+		w.digestErr = err
+	}
+
 	return digest
 }
 
-- 
2.43.0


From 476a784f29f44f3195d03e0bf5119feba933cb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:39 +0000
Subject: [PATCH 23/48] fix: report an unusable hash algorithm when presenting
 an SD-JWT credential

---
 verifiable/credential_sdjwt.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verifiable/credential_sdjwt.go b/verifiable/credential_sdjwt.go
index 56226f0..502a44d 100644
--- a/verifiable/credential_sdjwt.go
+++ b/verifiable/credential_sdjwt.go
@@ -162,7 +162,10 @@ func createSDJWTPresentation(vc *Credential, options *marshalDisclosureOpts) (st
 		return "", fmt.Errorf("creating SD-JWT from Credential: %w", err)
 	}
 
-	alg, _ := common.GetCryptoHashFromClaims(issued.SignedJWT.Payload) // nolint:errcheck
+	alg, err := common.GetCryptoHashFromClaims(issued.SignedJWT.Payload)
+	if err != nil {
+		return "", fmt.Errorf("get hash algorithm of vc sdjwt: %w", err)
+	}
 
 	disclosureClaims, err := common.GetDisclosureClaims(issued.Disclosures, alg)
 	if err != nil {
-- 
2.43.0


From 760261192c6e267ced08316f1e2ed48510024545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:19 +0000
Subject: [PATCH 24/48] fix: base context validation panicked on an empty type
 or context list

---
 verifiable/credential.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verifiable/credential.go b/verifiable/credential.go
index 7e0aa69..1d3eb8b 100644
--- a/verifiable/credential.go
+++ b/verifiable/credential.go
@@ -1641,11 +1641,11 @@ func validateCredential(vcc *CredentialContents, vcJSON JSONObject, vcOpts *cred
 }
 
 func validateBaseContext(vcJSON JSONObject, vcc *CredentialContents, vcOpts *credentialOpts) error {
-	if len(vcc.Types) > 1 || vcc.Types[0] != VCType {
+	if len(vcc.Types) != 1 || vcc.Types[0] != VCType {
 		return errors.New("violated type constraint: not base only type defined")
 	}
 
-	if len(vcc.Context) > 1 || !vcOpts.allowedContexts[vcc.Context[0]] {
+	if len(vcc.Context) != 1 || !vcOpts.allowedContexts[vcc.Context[0]] {
 		return errors.New("violated @context constraint: not base only @context defined")
 	}
 
-- 
2.43.0


From a1bf820490d4d23334d9a83c6553019ae42efc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:45 +0000
Subject: [PATCH 25/48] fix: contexts that follow an inline context escaped the
 base context validation

---
 verifiable/credential.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/verifiable/credential.go b/verifiable/credential.go
index 1d3eb8b..b932a67 100644
--- a/verifiable/credential.go
+++ b/verifiable/credential.go
@@ -1645,7 +1645,7 @@ func validateBaseContext(vcJSON JSONObject, vcc *CredentialContents, vcOpts *cre
 		return errors.New("violated type constraint: not base only type defined")
 	}
 
-	if len(vcc.Context) != 1 || !vcOpts.allowedContexts[vcc.Context[0]] {
+	if len(vcc.Context) != 1 || len(vcc.CustomContext) > 0 || !vcOpts.allowedContexts[vcc.Context[0]] {
 		return errors.New("violated @context constraint: not base only @context defined")
 	}
 
@@ -1660,6 +1660,18 @@ func validateBaseContextWithExtendedValidation(vcJSON JSONObject, vcc *Credentia
 		}
 	}
 
+	// contexts after an inline one are custom contexts as well
+	for _, custom := range vcc.CustomContext {
+		vcContext, ok := custom.(string)
+		if !ok {
+			continue
+		}
+
+		if _, ok = vcOpts.allowedContexts[vcContext]; !ok {
+			return fmt.Errorf("not allowed @context: %s", vcContext)
+		}
+	}
+
 	for _, vcType := range vcc.Types {
 		if _, ok := vcOpts.allowedCustomTypes[vcType]; !ok {
 			return fmt.Errorf("not allowed type: %s", vcType)
-- 
2.43.0


From 3dd1d92293d9d9bda270501073a86e4e3437ae73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:58 +0000
Subject: [PATCH 26/48] fix: JWT credentials and presentations without
 registered claims or content made parsing panic

---
 verifiable/credential_jwt.go   |  8 ++++++++
 verifiable/presentation_jwt.go | 18 ++++++++++++++++--
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/verifiable/credential_jwt.go b/verifiable/credential_jwt.go
index b6f3785..538fc72 100644
--- a/verifiable/credential_jwt.go
+++ b/verifiable/credential_jwt.go
@@ -183,6 +183,14 @@ func (jcc *JWTCredClaims) refineFromJWTClaims() error {
 	vcMap := jcc.VC
 	claims := jcc.Claims
 
+	if vcMap == nil {
+		return errors.New("credential is missed in JWT claims")
+	}
+
+	if claims == nil { // no registered claims, nothing to refine
+		return nil
+	}
+
 	if iss := claims.Issuer; iss != "" {
 		err := refineVCIssuerFromJWTClaims(vcMap, iss)
 		if err != nil {
diff --git a/verifiable/presentation_jwt.go b/verifiable/presentation_jwt.go
index e384815..9615f8f 100644
--- a/verifiable/presentation_jwt.go
+++ b/verifiable/presentation_jwt.go
@@ -7,6 +7,7 @@ package verifiable
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 
 	"github.com/trustbloc/vc-go/jwt"
@@ -19,9 +20,17 @@ type JWTPresClaims struct {
 	Presentation rawPresentation `json:"vp,omitempty"`
 }
 
-func (jpc *JWTPresClaims) refineFromJWTClaims() {
+func (jpc *JWTPresClaims) refineFromJWTClaims() error {
 	raw := jpc.Presentation
 
+	if raw == nil {
+		return errors.New("presentation is missed in JWT claims")
+	}
+
+	if jpc.Claims == nil { // no registered claims, nothing to refine
+		return nil
+	}
+
 	if jpc.Issuer != "" {
 		raw[vpFldHolder] = jpc.Issuer
 	}
@@ -29,6 +38,8 @@ func (jpc *JWTPresClaims) refineFromJWTClaims() {
 	if jpc.ID != "" {
 		raw[vpFldID] = jpc.ID
 	}
+
+	return nil
 }
 
 // newJWTPresClaims creates JWT Claims of VP with an option to minimize certain fields put into "vp" claim.
@@ -80,7 +91,10 @@ func decodePresJWT(vpJWT string, unmarshaller JWTPresClaimsUnmarshaller) ([]byte
 	}
 
 	// Apply VC-related claims from JWT.
-	presClaims.refineFromJWTClaims()
+	err = presClaims.refineFromJWTClaims()
+	if err != nil {
+		return nil, nil, fmt.Errorf("refine claims of JWT: %w", err)
+	}
 
 	vpRaw := presClaims.Presentation
 
-- 
2.43.0


From 4e8622cfc8e739758cbf5f20cbecebb3c3e8e1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:11 +0000
Subject: [PATCH 27/48] fix: claims of a credential without an issuer or
 issuance date panicked

---
 verifiable/credential_cwt.go | 11 +++++++----
 verifiable/credential_jwt.go |  9 ++++++---
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/verifiable/credential_cwt.go b/verifiable/credential_cwt.go
index 08ac082..cb7a929 100644
--- a/verifiable/credential_cwt.go
+++ b/verifiable/credential_cwt.go
@@ -33,10 +33,12 @@ func newCWTCredClaims(vc *Credential) (*CWTCredClaims, error) {
 
 	// currently jwt encoding supports only single subject (by the spec)
 	claims := &CWTClaims{
-		Issuer:    vcc.Issuer.ID,                           // iss
-		NotBefore: josejwt.NewNumericDate(vcc.Issued.Time), // nbf
-		ID:        vcc.ID,                                  // jti
-		Subject:   subjectID,                               // sub
+		ID:      vcc.ID,    // jti
+		Subject: subjectID, // sub
+	}
+
+	if vcc.Issuer != nil {
+		claims.Issuer = vcc.Issuer.ID // iss
 	}
 
 	if vcc.Expired != nil {
@@ -45,6 +47,7 @@ func newCWTCredClaims(vc *Credential) (*CWTCredClaims, error) {
 
 	if vcc.Issued != nil {
 		claims.IssuedAt = josejwt.NewNumericDate(vcc.Issued.Time)
+		claims.NotBefore = josejwt.NewNumericDate(vcc.Issued.Time) // nbf
 	}
 
 	credentialJSONCopy := jsonutil.ShallowCopyObj(vc.credentialJSON)
diff --git a/verifiable/credential_jwt.go b/verifiable/credential_jwt.go
index 538fc72..d38a505 100644
--- a/verifiable/credential_jwt.go
+++ b/verifiable/credential_jwt.go
@@ -109,9 +109,12 @@ func newJWTCredClaims(vc *Credential, minimizeVC bool) (*JWTCredClaims, error) {
 
 	// currently jwt encoding supports only single subject (by the spec)
 	jwtClaims := &jwt.Claims{
-		Issuer:  vcc.Issuer.ID, // iss
-		ID:      vcc.ID,        // jti
-		Subject: subjectID,     // sub
+		ID:      vcc.ID,    // jti
+		Subject: subjectID, // sub
+	}
+
+	if vcc.Issuer != nil {
+		jwtClaims.Issuer = vcc.Issuer.ID // iss
 	}
 
 	if vcc.Expired != nil {
-- 
2.43.0


From 924fc983a1af93b81281673d6266585597fdeca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:39 +0000
Subject: [PATCH 28/48] fix: an empty entry in a submission's descriptor map
 made matching panic

---
 presexch/api.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/presexch/api.go b/presexch/api.go
index ccba230..a3404f3 100644
--- a/presexch/api.go
+++ b/presexch/api.go
@@ -191,6 +191,10 @@ func getMatchedCreds( //nolint:gocyclo,funlen
 		}
 
 		for _, mapping := range descriptorMap {
+			if mapping == nil {
+				return nil, fmt.Errorf("'%s' has an empty entry", descriptorMapProperty)
+			}
+
 			// The object MUST include an id property, and its value MUST be a string matching the id property of
 			// the Input Descriptor in the Presentation Definition the submission is related to.
 			if _, ok := descriptorIDs[mapping.ID]; !ok {
-- 
2.43.0


From 8fdeb81fe7d4eb1610db4c4524cb927a8aef4a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:39 +0000
Subject: [PATCH 29/48] fix: a presentation definition that repeats an input
 descriptor ID made matching panic

---
 .../internal/requirementlogic/requirementlogic.go    | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/presexch/internal/requirementlogic/requirementlogic.go b/presexch/internal/requirementlogic/requirementlogic.go
index d1e0e91..007d75a 100644
--- a/presexch/internal/requirementlogic/requirementlogic.go
+++ b/presexch/internal/requirementlogic/requirementlogic.go
@@ -121,16 +121,14 @@ func NewBitsetIterator(req *RequirementLogic, descs []string) *BitsetSolutionIte
 	reqDescriptors := req.GetAllDescriptors()
 
 	idxMap := make(map[string]int, len(reqDescriptors))
-	useDescs := make([]string, len(reqDescriptors))
-
-	i := 0
+	useDescs := make([]string, 0, len(reqDescriptors))
 
 	for _, desc := range descs {
-		if _, ok := reqDescriptors[desc]; ok {
-			idxMap[desc] = i
-			useDescs[i] = desc
+		_, used := idxMap[desc] // an ID may be listed more than once
 
-			i++
+		if _, ok := reqDescriptors[desc]; ok && !used {
+			idxMap[desc] = len(useDescs)
+			useDescs = append(useDescs, desc)
 		}
 	}
 
-- 
2.43.0


From 79b7026bed26edf7ed9b083e127a6d374368e015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:55 +0000
Subject: [PATCH 30/48] fix: a filter without a type made matching panic

---
 presexch/definition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index b5a0c9e..caf37fa 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -1481,7 +1481,7 @@ func filterField(f *Field, credential map[string]interface{}, isJWTCredential bo
 
 	if f.Filter != nil {
 		filter := *f.Filter
-		if *filter.Type == "string" && filter.Format == "date-time" {
+		if filter.Type != nil && *filter.Type == "string" && filter.Format == "date-time" {
 			if val, ok := filter.Minimum.(string); ok && val != "" {
 				if t, err := time.Parse(time.RFC3339, val); err == nil {
 					numFilterType := "number"
-- 
2.43.0


From 1ff0b529d339c6e6d900a47a88444587fbd99355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:55 +0000
Subject: [PATCH 31/48] fix: a related resource digest shorter than two bytes
 made parsing panic

---
 verifiable/related_resource.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verifiable/related_resource.go b/verifiable/related_resource.go
index 67d380f..3c03031 100644
--- a/verifiable/related_resource.go
+++ b/verifiable/related_resource.go
@@ -199,7 +199,8 @@ func (r *RelatedResourceValidator) validateHash(
 		return fmt.Errorf("unsupported hash algorithm: %s", hashAlgo)
 	}
 
-	hasHeader := enc == multibase.Base64url && decodedDigest[0] == 0x12 && decodedDigest[1] == 0x20
+	hasHeader := enc == multibase.Base64url && len(decodedDigest) > 1 &&
+		decodedDigest[0] == 0x12 && decodedDigest[1] == 0x20
 	if hasHeader { // skip header
 		decodedDigest = decodedDigest[2:]
 	}
-- 
2.43.0


From ec93b2a556b678cb710a314d7c5c0b9ea446097e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:40 +0000
Subject: [PATCH 32/48] fix: checking the proof of a credential with external
 contexts added them to the credential

---
 verifiable/embedded_proof.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verifiable/embedded_proof.go b/verifiable/embedded_proof.go
index 4fc04e7..5ef41de 100644
--- a/verifiable/embedded_proof.go
+++ b/verifiable/embedded_proof.go
@@ -9,6 +9,7 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"maps"
 	"strings"
 
 	jsonld "github.com/trustbloc/did-go/doc/ld/processor"
@@ -62,6 +63,8 @@ func checkEmbeddedProof(jsonldDoc map[string]interface{}, expectedProofIssuer *s
 
 	if len(opts.externalContext) > 0 {
 		// Use external contexts for check of the linked data proofs to enrich JSON-LD context vocabulary.
+		// The document belongs to the caller (e.g. it's the content of the credential being checked), so extend a copy.
+		jsonldDoc = maps.Clone(jsonldDoc)
 		jsonldDoc["@context"] = jsonld.AppendExternalContexts(jsonldDoc["@context"], opts.externalContext...)
 	}
 
-- 
2.43.0


From 5e2e884083e90b8b159dbb0fb97363929d642714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:04 +0000
Subject: [PATCH 33/48] fix: issuing an SD-JWT from a VC replaced the claims of
 the VC it was given

---
 sdjwt/issuer/issuer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sdjwt/issuer/issuer.go b/sdjwt/issuer/issuer.go
index 22f9401..5b78075 100644
--- a/sdjwt/issuer/issuer.go
+++ b/sdjwt/issuer/issuer.go
@@ -434,6 +434,9 @@ func NewFromVC(vc map[string]interface{}, headers jose.Headers,
 		return nil, err
 	}
 
+	// the claims that are replaced below belong to the caller
+	vc = utils.CopyMap(vc)
+
 	vcClaims, err := getBuilderByVersion(nOpts.version).ExtractCredentialClaims(vc)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From b81c7ed57c10e2595228380410754eb61c7a872d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:30 +0000
Subject: [PATCH 34/48] fix: adding a data integrity proof left the resolved
 verification method in the caller's options

---
 dataintegrity/signer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dataintegrity/signer.go b/dataintegrity/signer.go
index 79c6427..34788ac 100644
--- a/dataintegrity/signer.go
+++ b/dataintegrity/signer.go
@@ -93,6 +93,10 @@ func (s *Signer) AddProof(doc []byte, opts *models.ProofOptions) ([]byte, error)
 		return nil, ErrUnsupportedSuite
 	}
 
+	// The verification method found for this proof isn't for the caller's next one.
+	proofOpts := *opts
+	opts = &proofOpts
+
 	err := resolveVM(opts, s.resolver, "")
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 69fa34148c3f1556eaf7d792008854d8ca89e86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:10 +0000
Subject: [PATCH 35/48] fix: the ecdsa-2019 suite set the suite type in the
 caller's options

---
 dataintegrity/suite/ecdsa2019/ecdsa2019.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/dataintegrity/suite/ecdsa2019/ecdsa2019.go b/dataintegrity/suite/ecdsa2019/ecdsa2019.go
index 029844a..7436b39 100644
--- a/dataintegrity/suite/ecdsa2019/ecdsa2019.go
+++ b/dataintegrity/suite/ecdsa2019/ecdsa2019.go
@@ -187,9 +187,7 @@ const (
 // CreateProof implements the ecdsa-2019 cryptographic suite for Add Proof:
 // https://www.w3.org/TR/vc-di-ecdsa/#add-proof-ecdsa-2019
 func (s *Suite) CreateProof(doc []byte, opts *models.ProofOptions) (*models.Proof, error) {
-	if opts.SuiteType == "" {
-		opts.SuiteType = SuiteType
-	}
+	opts = withSuiteType(opts)
 
 	docHash, vmKey, _, err := s.transformAndHash(doc, opts)
 	if err != nil {
@@ -230,6 +228,18 @@ func (s *Suite) CreateProof(doc []byte, opts *models.ProofOptions) (*models.Proo
 	return p, nil
 }
 
+// withSuiteType returns the options with the default suite type, leaving those of the caller as they are.
+func withSuiteType(opts *models.ProofOptions) *models.ProofOptions {
+	if opts.SuiteType != "" {
+		return opts
+	}
+
+	suiteOpts := *opts
+	suiteOpts.SuiteType = SuiteType
+
+	return &suiteOpts
+}
+
 func (s *Suite) unmarshalECKey(ecCRV elliptic.Curve, pubKey []byte) ([]byte, error) {
 	xBig, yBig := elliptic.UnmarshalCompressed(ecCRV, pubKey)
 
@@ -248,9 +258,7 @@ func (s *Suite) unmarshalECKey(ecCRV elliptic.Curve, pubKey []byte) ([]byte, err
 
 //nolint:funlen,gocyclo // Old function
 func (s *Suite) transformAndHash(doc []byte, opts *models.ProofOptions) ([]byte, *pubkey.PublicKey, Verifier, error) {
-	if opts.SuiteType == "" {
-		opts.SuiteType = SuiteType
-	}
+	opts = withSuiteType(opts)
 
 	docData := make(map[string]interface{})
 
-- 
2.43.0


From d52554898115ee9cfccc3f9970af52b2602bf9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:35 +0000
Subject: [PATCH 36/48] fix: canonicalising a BBS+ derived proof changed the
 type of the document

---
 proof/ldproofs/bbsblssignatureproof2020/proof.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proof/ldproofs/bbsblssignatureproof2020/proof.go b/proof/ldproofs/bbsblssignatureproof2020/proof.go
index 2e14d2b..b4dd7dc 100644
--- a/proof/ldproofs/bbsblssignatureproof2020/proof.go
+++ b/proof/ldproofs/bbsblssignatureproof2020/proof.go
@@ -15,6 +15,7 @@ package bbsblssignatureproof2020
 // It uses BLS12-381 pairing-friendly curve (https://tools.ietf.org/html/draft-irtf-cfrg-pairing-friendly-curves-03).
 
 import (
+	"maps"
 	"strings"
 
 	"github.com/trustbloc/did-go/doc/ld/processor"
@@ -68,6 +69,8 @@ func (s *Proof) GetCanonicalDocument(doc map[string]interface{}, opts ...process
 
 		if ok && strings.HasSuffix(docType, ProofType) {
 			docType = strings.Replace(docType, ProofType, "BbsBlsSignature2020", 1)
+
+			doc = maps.Clone(doc)
 			doc["type"] = docType
 		}
 	}
-- 
2.43.0


From 24b0f38d940cf2b96665fee866170e4abf26fc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:58 +0000
Subject: [PATCH 37/48] fix: the default proof purpose was written into the
 caller's options

---
 verifiable/data_integrity_proof.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/verifiable/data_integrity_proof.go b/verifiable/data_integrity_proof.go
index 514e338..5faa687 100644
--- a/verifiable/data_integrity_proof.go
+++ b/verifiable/data_integrity_proof.go
@@ -86,12 +86,13 @@ func addDataIntegrityProof(
 		expiresTime = *context.Expires
 	}
 
-	if context.ProofPurpose == "" {
-		context.ProofPurpose = assertionMethod
+	purpose := context.ProofPurpose
+	if purpose == "" {
+		purpose = assertionMethod
 	}
 
 	signed, err := signer.AddProof(ldBytes, &models.ProofOptions{
-		Purpose:              context.ProofPurpose,
+		Purpose:              purpose,
 		VerificationMethodID: context.SigningKeyID,
 		ProofType:            models.DataIntegrityProof,
 		SuiteType:            context.CryptoSuite,
@@ -133,12 +134,13 @@ func checkDataIntegrityProof(ldBytes []byte, opts *verifyDataIntegrityOpts) erro
 		return errors.New("data integrity proof needs data integrity verifier")
 	}
 
-	if opts.Purpose == "" {
-		opts.Purpose = assertionMethod
+	purpose := opts.Purpose
+	if purpose == "" {
+		purpose = assertionMethod
 	}
 
 	return opts.Verifier.VerifyProof(ldBytes, &models.ProofOptions{
-		Purpose:   opts.Purpose,
+		Purpose:   purpose,
 		ProofType: models.DataIntegrityProof,
 		Domain:    opts.Domain,
 		Challenge: opts.Challenge,
-- 
2.43.0


From f0168e7fa910ce0848a2727017bfe05a93aa99ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:45 +0000
Subject: [PATCH 38/48] fix: reading a store's configuration raced with opening
 and configuring stores

---
 legacy/mem/mem.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/legacy/mem/mem.go b/legacy/mem/mem.go
index bbdad0e..395d042 100644
--- a/legacy/mem/mem.go
+++ b/legacy/mem/mem.go
@@ -97,6 +97,9 @@ func (p *Provider) SetStoreConfig(name string, config spi.StoreConfiguration) er
 func (p *Provider) GetStoreConfig(name string) (spi.StoreConfiguration, error) {
 	storeName := strings.ToLower(name)
 
+	p.lock.RLock()
+	defer p.lock.RUnlock()
+
 	store := p.dbs[storeName]
 	if store == nil {
 		return spi.StoreConfiguration{}, spi.ErrStoreNotFound
-- 
2.43.0


From 89ee1c5eca3d4b435f154974d924f8322e80d1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:30 +0000
Subject: [PATCH 39/48] fix: serialising a presentation dropped the inline
 objects of its @context

---
 verifiable/presentation.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verifiable/presentation.go b/verifiable/presentation.go
index dd39873..418d567 100644
--- a/verifiable/presentation.go
+++ b/verifiable/presentation.go
@@ -496,8 +496,8 @@ func (vp *Presentation) raw() (rawPresentation, error) {
 
 	// TODO single value contexts should be compacted as part of Issue [#1730]
 	// Not compacting now to support interoperability
-	if len(vp.Context) > 0 {
-		rp[vpFldContext] = contextToRaw(vp.Context, nil)
+	if len(vp.Context) > 0 || len(vp.CustomContext) > 0 {
+		rp[vpFldContext] = contextToRaw(vp.Context, vp.CustomContext)
 	}
 
 	if vp.ID != "" {
-- 
2.43.0


From c955d6657bf4563469eb391fdc4232adbc231094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:29 +0000
Subject: [PATCH 40/48] fix: serialising several subjects, schemas, terms of
 use or related resources gave JSON objects that could not be parsed

---
 verifiable/credential.go | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/verifiable/credential.go b/verifiable/credential.go
index b932a67..9727264 100644
--- a/verifiable/credential.go
+++ b/verifiable/credential.go
@@ -2174,7 +2174,9 @@ func SerializeSubject(subject []Subject) interface{} {
 		return SubjectToJSON(subject[0])
 	}
 
-	return mapSlice(subject, SubjectToJSON)
+	return mapSlice(subject, func(s Subject) interface{} {
+		return SubjectToJSON(s)
+	})
 }
 
 // validateCredentialUsingJSONSchema validates that the Verifiable Credential
@@ -2494,7 +2496,7 @@ func serializeCredentialContents(vcc *CredentialContents, proofs []Proof) (JSONO
 		if len(vcc.Status) == 1 {
 			vcJSON[jsonFldStatus] = serializeTypedIDObj(*vcc.Status[0])
 		} else {
-			statuses := make([]map[string]interface{}, len(vcc.Status))
+			statuses := make([]interface{}, len(vcc.Status))
 
 			for i, status := range vcc.Status {
 				statuses[i] = serializeTypedIDObj(*status)
@@ -2521,7 +2523,7 @@ func serializeCredentialContents(vcc *CredentialContents, proofs []Proof) (JSONO
 	}
 
 	if len(vcc.RelatedResources) > 0 {
-		vcJSON[jsonFldRelatedResource] = vcc.RelatedResources
+		vcJSON[jsonFldRelatedResource] = relatedResourcesToRaw(vcc.RelatedResources)
 	}
 
 	if len(vcc.TermsOfUse) > 0 {
@@ -2589,10 +2591,36 @@ func typedIDsToRaw(typedIDs []TypedID) interface{} {
 	case 1:
 		return serializeTypedIDObj(typedIDs[0])
 	default:
-		return mapSlice(typedIDs, serializeTypedIDObj)
+		return mapSlice(typedIDs, func(t TypedID) interface{} {
+			return serializeTypedIDObj(t)
+		})
 	}
 }
 
+func relatedResourcesToRaw(resources []RelatedResource) interface{} {
+	return mapSlice(resources, func(r RelatedResource) interface{} {
+		obj := JSONObject{}
+
+		if r.Id != "" {
+			obj["id"] = r.Id
+		}
+
+		if r.DigestSRI != "" {
+			obj["digestSRI"] = r.DigestSRI
+		}
+
+		if r.MediaType != "" {
+			obj["mediaType"] = r.MediaType
+		}
+
+		if r.DigestMultiBase != "" {
+			obj["digestMultibase"] = r.DigestMultiBase
+		}
+
+		return obj
+	})
+}
+
 // MarshalJSON converts Verifiable Credential to JSON bytes.
 func (vc *Credential) MarshalJSON() ([]byte, error) {
 	obj, err := vc.ToUniversalForm()
-- 
2.43.0


From 4babd614ca304242c3f99c9898fc3ba705345a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:55 +0000
Subject: [PATCH 41/48] fix: the proofs in a document returned by
 BBSSelectiveDisclosure could not be parsed as proofs

---
 verifiable/bbs_selective_disclosure.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verifiable/bbs_selective_disclosure.go b/verifiable/bbs_selective_disclosure.go
index d8e14f1..dea99bb 100644
--- a/verifiable/bbs_selective_disclosure.go
+++ b/verifiable/bbs_selective_disclosure.go
@@ -65,7 +65,7 @@ func BBSSelectiveDisclosure(doc map[string]interface{}, revealDoc map[string]int
 		return nil, fmt.Errorf("build document verification data: %w", pErr)
 	}
 
-	proofs := make([]map[string]interface{}, len(blsSignatures))
+	proofs := make([]interface{}, len(blsSignatures))
 
 	for i, blsSignature := range blsSignatures {
 		verData, dErr := buildVerificationData(blsSignature, docVerData, opts...)
-- 
2.43.0


From fb380041b647bca072f9ee98f1c0b57a9fdbb5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:22 +0000
Subject: [PATCH 42/48] fix: changing a credential's dates left the previous
 one in the document under the other data model's name, and crashed without
 one

---
 verifiable/credential.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/verifiable/credential.go b/verifiable/credential.go
index 9727264..32bf1e9 100644
--- a/verifiable/credential.go
+++ b/verifiable/credential.go
@@ -2695,7 +2695,7 @@ func (vc *Credential) WithModifiedIssued(wrapper *util.TimeWrapper) *Credential
 	newContents := vc.Contents()
 
 	newContents.Issued = wrapper
-	newCredJSON[jsonFldIssued] = serializeTime(wrapper)
+	setTime(newCredJSON, jsonFldIssued, jsonFldValidFrom, wrapper)
 
 	return &Credential{
 		credentialJSON:     newCredJSON,
@@ -2709,7 +2709,7 @@ func (vc *Credential) WithModifiedExpired(wrapper *util.TimeWrapper) *Credential
 	newContents := vc.Contents()
 
 	newContents.Expired = wrapper
-	newCredJSON[jsonFldExpired] = serializeTime(wrapper)
+	setTime(newCredJSON, jsonFldExpired, jsonFldValidUntil, wrapper)
 
 	return &Credential{
 		credentialJSON:     newCredJSON,
@@ -2723,7 +2723,7 @@ func (vc *Credential) WithModifiedValidFrom(wrapper *util.TimeWrapper) *Credenti
 	newContents := vc.Contents()
 
 	newContents.Issued = wrapper
-	newCredJSON[jsonFldValidFrom] = serializeTime(wrapper)
+	setTime(newCredJSON, jsonFldValidFrom, jsonFldIssued, wrapper)
 
 	return &Credential{
 		credentialJSON:     newCredJSON,
@@ -2737,7 +2737,7 @@ func (vc *Credential) WithModifiedValidUntil(wrapper *util.TimeWrapper) *Credent
 	newContents := vc.Contents()
 
 	newContents.Expired = wrapper
-	newCredJSON[jsonFldValidUntil] = serializeTime(wrapper)
+	setTime(newCredJSON, jsonFldValidUntil, jsonFldExpired, wrapper)
 
 	return &Credential{
 		credentialJSON:     newCredJSON,
@@ -2860,6 +2860,20 @@ func (vc *Credential) SetCustomField(name string, value interface{}) {
 	vc.credentialJSON[name] = value
 }
 
+// setTime writes the time as fld, the document doesn't keep what it has as otherFld (the same date in the other version of
+// the data model) next to it.
+func setTime(credentialJSON JSONObject, fld, otherFld string, wrapper *util.TimeWrapper) {
+	delete(credentialJSON, otherFld)
+
+	if wrapper == nil {
+		delete(credentialJSON, fld)
+
+		return
+	}
+
+	credentialJSON[fld] = serializeTime(wrapper)
+}
+
 func copyCredentialJSONWithoutProofs(credentialJSON JSONObject) JSONObject {
 	newContent := jsonutil.ShallowCopyObj(credentialJSON)
 	delete(newContent, jsonFldLDProof)
-- 
2.43.0


From 4951668b230b85997a0d1fbd7b2f8e7291bf58ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:33 +0000
Subject: [PATCH 43/48] fix: which of several verification methods with the
 same ID was resolved depended on map order

---
 vermethod/vdrkeyresolver.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vermethod/vdrkeyresolver.go b/vermethod/vdrkeyresolver.go
index 1c12ebf..8354f73 100644
--- a/vermethod/vdrkeyresolver.go
+++ b/vermethod/vdrkeyresolver.go
@@ -8,6 +8,8 @@ package vermethod
 
 import (
 	"fmt"
+	"maps"
+	"slices"
 
 	"github.com/trustbloc/did-go/doc/did"
 	vdrapi "github.com/trustbloc/did-go/vdr/api"
@@ -39,8 +41,10 @@ func (r *VDRResolver) ResolveVerificationMethod(
 		return nil, fmt.Errorf("resolve DID %s: %w", expectedKeyController, err)
 	}
 
-	for _, verifications := range docResolution.DIDDocument.VerificationMethods() {
-		for _, verification := range verifications {
+	verificationMethods := docResolution.DIDDocument.VerificationMethods()
+
+	for _, relationship := range slices.Sorted(maps.Keys(verificationMethods)) {
+		for _, verification := range verificationMethods[relationship] {
 			if verification.VerificationMethod.ID == verificationMethod &&
 				verification.Relationship != did.KeyAgreement {
 				return &VerificationMethod{
-- 
2.43.0


From 1688bb17e813a34f058d424a76f1a4cbe1437067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:33 +0000
Subject: [PATCH 44/48] fix: the order of limited disclosures and of reveal
 document changes depended on map order

---
 presexch/definition.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index caf37fa..fb4d46f 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -11,6 +11,8 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"maps"
+	"slices"
 	"sort"
 	"strconv"
 	"strings"
@@ -1213,8 +1215,9 @@ func getLimitedDisclosures(constraints *Constraints, displaySrc []byte, credenti
 func ExtractArrayValuesForSDJWTV5(obj map[string]interface{}) []string {
 	var extractedValues []string
 
-	for key, v := range obj {
-		switch val := v.(type) {
+	// in a fixed order: it decides the order of the disclosures
+	for _, key := range slices.Sorted(maps.Keys(obj)) {
+		switch val := obj[key].(type) {
 		case string:
 			if key == "..." {
 				extractedValues = append(extractedValues, val)
@@ -1395,7 +1398,8 @@ func enhanceRevealDoc(explicitPaths map[string]bool, revealDoc, vcBytes []byte)
 
 	intermPaths := make(map[string]bool)
 
-	for path := range explicitPaths {
+	// in a fixed order: setting a path can affect the ones set before
+	for _, path := range slices.Sorted(maps.Keys(explicitPaths)) {
 		revealDoc, err = enhanceRevealField(path, revealDoc, vcBytes)
 		if err != nil {
 			return nil, err
@@ -1417,7 +1421,7 @@ func enhanceRevealDoc(explicitPaths map[string]bool, revealDoc, vcBytes []byte)
 		}
 	}
 
-	for path := range intermPaths {
+	for _, path := range slices.Sorted(maps.Keys(intermPaths)) {
 		revealDoc, err = enhanceRevealField(path, revealDoc, vcBytes)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 1f7b2b75177f7739b6f1a4528579c0493edb9d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:33 +0000
Subject: [PATCH 45/48] fix: which endpoint of a service was used depended on
 map order

---
 status/internal/identityhub/identityhub.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/status/internal/identityhub/identityhub.go b/status/internal/identityhub/identityhub.go
index e2e3233..d886e0c 100644
--- a/status/internal/identityhub/identityhub.go
+++ b/status/internal/identityhub/identityhub.go
@@ -12,7 +12,9 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"maps"
 	"net/http"
+	"slices"
 	"strings"
 
 	"github.com/google/uuid"
@@ -204,8 +206,8 @@ func getDIDCoreServiceEndpoint(svc *did.Service) (string, error) {
 		return "", fmt.Errorf("unable to unmarshal DIDCore service endpoint: %w", err)
 	}
 
-	for _, v := range mapped {
-		didCoreEndpoint := model.NewDIDCoreEndpoint(v)
+	for _, key := range slices.Sorted(maps.Keys(mapped)) {
+		didCoreEndpoint := model.NewDIDCoreEndpoint(mapped[key])
 
 		serviceEndpoint, err = didCoreEndpoint.URI()
 		if err == nil {
-- 
2.43.0


From 18e24814d3039e69bf4d9fc4824ec9c0ce816145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:33 +0000
Subject: [PATCH 46/48] fix: which of several CBOR members with the same text
 was kept depended on map order

---
 verifiable/credential_parser.go   | 34 +++++++++++++++++++++++--------
 verifiable/presentation_cwt.go    |  7 ++++++-
 verifiable/presentation_parser.go |  5 ++++-
 3 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/verifiable/credential_parser.go b/verifiable/credential_parser.go
index f95d4cd..301e611 100644
--- a/verifiable/credential_parser.go
+++ b/verifiable/credential_parser.go
@@ -115,30 +115,45 @@ type CredentialCBORParser struct{}
 
 func convertToStringMap(
 	input map[interface{}]interface{},
-) map[string]interface{} {
+) (map[string]interface{}, error) {
 	out := map[string]interface{}{}
 
 	for k, v := range input {
 		key := fmt.Sprintf("%v", k)
 
-		out[key] = convertElement(v)
+		// keys of different types, such as 1 and "1"
+		if _, ok := out[key]; ok {
+			return nil, fmt.Errorf("several cbor map keys are converted to %q", key)
+		}
+
+		elem, err := convertElement(v)
+		if err != nil {
+			return nil, err
+		}
+
+		out[key] = elem
 	}
 
-	return out
+	return out, nil
 }
 
-func convertElement(element interface{}) interface{} {
+func convertElement(element interface{}) (interface{}, error) {
 	switch elem := element.(type) {
 	case map[interface{}]interface{}:
 		return convertToStringMap(elem)
 	case []interface{}:
 		for i, v := range elem {
-			elem[i] = convertElement(v)
+			converted, err := convertElement(v)
+			if err != nil {
+				return nil, err
+			}
+
+			elem[i] = converted
 		}
 
-		return elem
+		return elem, nil
 	default:
-		return elem
+		return elem, nil
 	}
 }
 
@@ -190,7 +205,10 @@ func (p *CredentialCBORParser) Parse( //nolint:funlen,gocyclo // Old function
 		return nil, errors.New("vc field not found in cbor credential")
 	}
 
-	convertedMap := convertToStringMap(vcDataMap)
+	convertedMap, err := convertToStringMap(vcDataMap)
+	if err != nil {
+		return nil, fmt.Errorf("convert cbor credential: %w", err)
+	}
 
 	contents, err := parseCredentialContents(convertedMap, false)
 	if err != nil {
diff --git a/verifiable/presentation_cwt.go b/verifiable/presentation_cwt.go
index e9b6018..6e18c35 100644
--- a/verifiable/presentation_cwt.go
+++ b/verifiable/presentation_cwt.go
@@ -65,12 +65,17 @@ func (vp *Presentation) CreateCWTVP(
 		return nil, fmt.Errorf("failed to unmarshal VP map: %w", err)
 	}
 
+	convertedMap, err := convertToStringMap(vpMap)
+	if err != nil {
+		return nil, fmt.Errorf("failed to convert VP map: %w", err)
+	}
+
 	vp2 := vp.Clone()
 
 	vp2.CWT = &VpCWT{
 		Raw:     cwtBytes,
 		Message: msg,
-		VPMap:   convertToStringMap(vpMap),
+		VPMap:   convertedMap,
 	}
 
 	vp2.JWT = ""
diff --git a/verifiable/presentation_parser.go b/verifiable/presentation_parser.go
index eef4716..1f58c2f 100644
--- a/verifiable/presentation_parser.go
+++ b/verifiable/presentation_parser.go
@@ -153,7 +153,10 @@ func (p *PresentationCWTParser) parse(vpData []byte, vpOpts *presentationOpts) (
 		return nil, fmt.Errorf("unmarshal cbor vp payload: %w", err)
 	}
 
-	convertedMap := convertToStringMap(vpMap)
+	convertedMap, err := convertToStringMap(vpMap)
+	if err != nil {
+		return nil, fmt.Errorf("convert cbor vp: %w", err)
+	}
 
 	vpContent, ok := convertedMap["vp"].(map[string]interface{})
 	if !ok {
-- 
2.43.0


From 416410ed957b655550f736f1057ea61859918f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:34 +0000
Subject: [PATCH 47/48] fix: a criterion of a query was dropped when another
 one named the same tag

---
 legacy/mem/mem.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legacy/mem/mem.go b/legacy/mem/mem.go
index 395d042..9545d5a 100644
--- a/legacy/mem/mem.go
+++ b/legacy/mem/mem.go
@@ -290,14 +290,14 @@ func (m *memStore) Query(expression string, options ...spi.QueryOption) (spi.Ite
 
 			keys, dbEntries := m.getMatchingKeysAndDBEntries(expressionTagName, "")
 
-			queryResults[expressionTagName] = &queryResult{keys: keys, dbEntries: dbEntries}
+			queryResults[exp] = &queryResult{keys: keys, dbEntries: dbEntries}
 		case expressionTagNameAndValueLength:
 			expressionTagName := expressionSplit[0]
 			expressionTagValue := expressionSplit[1]
 
 			keys, dbEntries := m.getMatchingKeysAndDBEntries(expressionTagName, expressionTagValue)
 
-			queryResults[expressionTagName] = &queryResult{keys: keys, dbEntries: dbEntries}
+			queryResults[exp] = &queryResult{keys: keys, dbEntries: dbEntries}
 		default:
 			return nil, errInvalidQueryExpressionFormat
 		}
-- 
2.43.0


From 7411f0bf23c41779f268096572e66cc7346908c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:27:50 +0000
Subject: [PATCH 48/48] fix: paths starting with "@" were refused, and empty
 ones let through

---
 presexch/definition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index fb4d46f..972063d 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -1564,7 +1564,7 @@ func checkPathValue(
 		}
 	}
 
-	if !strings.HasPrefix(path, "$") && !strings.HasPrefix("@", path) {
+	if !strings.HasPrefix(path, "$") && !strings.HasPrefix(path, "@") {
 		return errors.New("expected $ or @ at start of path")
 	}
 
-- 
2.43.0

