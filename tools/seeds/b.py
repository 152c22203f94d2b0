SEEDS = []
SEEDS.append(dict(id="c37-first-match", property="C37", pkg="verifiable",
 edits=[("verifiable/presentation.go", '''						"verifiable presentation")
				}
''', '''						"verifiable presentation")
				}

				return nil
''')],
 needs="A presentation with several self-asserted credentials, of which only the first was issued by the holder.",
 breaks="The holder check stops at the first credential that satisfies it; a later credential of another issuer is accepted.",
 test='''package verifiable

import (
	"testing"

	"github.com/stretchr/testify/require"
)

func zzCred(t *testing.T, issuer string) *Credential {
	t.Helper()

	vc, err := CreateCredential(CredentialContents{
		Context: []string{V1ContextURI},
		ID:      "http://example.edu/credentials/" + issuer,
		Types:   []string{VCType},
		Subject: []Subject{{ID: "did:ex:subject"}},
		Issuer:  &Issuer{ID: issuer},
	}, nil)
	require.NoError(t, err)

	vc.ldProofs = []Proof{{"type": "x", "verificationMethod": "did:ex:holder#k"}}

	return vc
}

func TestZZDemo(t *testing.T) {
	proofs := []Proof{{"type": "x", "verificationMethod": "did:ex:holder#k"}}
	opts := &presentationOpts{checkHolder: true}

	good, bad := zzCred(t, "did:ex:holder"), zzCred(t, "did:ex:other")

	require.NoError(t, executeChecks(opts, proofs, []*Credential{good, good}, "did:ex:holder"))
	require.Error(t, executeChecks(opts, proofs, []*Credential{bad, good}, "did:ex:holder"))
	require.Error(t, executeChecks(opts, proofs, []*Credential{good, bad}, "did:ex:holder"))
}
'''))
SEEDS.append(dict(id="c38-cache-key", property="C38", pkg="verifiable",
 edits=[("verifiable/credential.go", '''	if cachedBytes, ok := cache.Get(url); ok {''', '''	key, _, _ := strings.Cut(url, "?")

	if cachedBytes, ok := cache.Get(key); ok {'''),
 ("verifiable/credential.go", '''	cache.Put(url, schemaBytes)''', '''	cache.Put(key, schemaBytes)''')],
 needs="Two schemas served from one path that differ in their query (?version=1 and ?version=2) and a schema cache.",
 breaks="Schemas are cached under their address without the query, so one schema is used in place of another.",
 test='''package verifiable

import (
	"net/http"
	"net/http/httptest"
	"testing"
	"time"

	"github.com/stretchr/testify/require"
)

func TestZZDemo(t *testing.T) {
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		_, _ = w.Write([]byte(r.URL.RawQuery))
	}))
	defer srv.Close()

	opts := &credentialOpts{schemaLoader: NewCredentialSchemaLoaderBuilder().
		SetSchemaDownloadClient(srv.Client()).
		SetCache(NewExpirableSchemaCache(1<<20, time.Hour)).Build()}

	for i := 0; i < 2; i++ {
		for _, v := range []string{"version=1", "version=2"} {
			got, err := getJSONSchema(srv.URL+"/schema?"+v, opts)
			require.NoError(t, err)
			require.Equal(t, v, string(got))
		}
	}
}
'''))
SEEDS.append(dict(id="c20-issuer-fold", property="C20", pkg="status",
 edits=[("status/status.go", '''		statusListVCC.Issuer.ID != credential.Contents().Issuer.ID {''', '''		!strings.EqualFold(statusListVCC.Issuer.ID, credential.Contents().Issuer.ID) {'''),
 ("status/status.go", '''	"fmt"
''', '''	"fmt"
	"strings"
''')],
 needs="A status list issued by a DID that differs from the credential's issuer only in letter case (identifiers such as did:key are case-sensitive).",
 breaks="The status list of another issuer is taken for the credential's.",
 test='''package status

import (
	"testing"

	"github.com/stretchr/testify/require"

	"github.com/trustbloc/vc-go/status/api"
	"github.com/trustbloc/vc-go/status/validator"
	"github.com/trustbloc/vc-go/verifiable"
)

type zzResolver struct{ vc *verifiable.Credential }

func (r *zzResolver) Resolve(string) (*verifiable.Credential, error) { return r.vc, nil }

func TestZZDemo(t *testing.T) {
	list := func(issuer string) *verifiable.Credential {
		vc, err := verifiable.CreateCredential(verifiable.CredentialContents{
			Issuer: &verifiable.Issuer{ID: issuer},
			Subject: []verifiable.Subject{{ID: "s", CustomFields: map[string]interface{}{
				"encodedList": "H4sIAAAAAAAA_2IABAAA__-N7wLSAQAAAA"}}},
		}, nil)
		require.NoError(t, err)

		return vc
	}

	vc, err := verifiable.CreateCredential(verifiable.CredentialContents{
		Issuer: &verifiable.Issuer{ID: "did:key:z6MkA"},
		Status: []*verifiable.TypedID{{ID: "i", Type: "StatusList2021Entry", CustomFields: map[string]interface{}{
			"statusListIndex": "1", "statusListCredential": "x", "statusPurpose": "revocation"}}},
	}, nil)
	require.NoError(t, err)

	check := func(issuer string) error {
		c := Client{ValidatorGetter: func(string) (api.Validator, error) { return validator.GetValidator("StatusList2021Entry") },
			Resolver: &zzResolver{vc: list(issuer)}}

		return c.VerifyStatus(vc)
	}

	err = check("did:key:z6MkA")
	if err != nil {
		require.NotContains(t, err.Error(), "issuer of the credential does not match")
	}

	require.ErrorContains(t, check("did:key:z6Mkb"), "issuer of the credential does not match")
	require.ErrorContains(t, check("did:key:z6Mka"), "issuer of the credential does not match")
}
'''))
SEEDS.append(dict(id="c22-no-port", property="C22", pkg="didconfig/verifier",
 edits=[("didconfig/verifier/didconfig.go", '''	if url1.Host != url2.Host || url1.Scheme != url2.Scheme || url1.Port() != url2.Port() {''',
 '''	if url1.Hostname() != url2.Hostname() || url1.Scheme != url2.Scheme {''')],
 needs="A linkage credential for the same host on another port.",
 breaks="An origin on another port passes for the expected one.",
 test='''package verifier

import (
	"testing"

	"github.com/stretchr/testify/require"
)

func TestZZDemo(t *testing.T) {
	require.NoError(t, validateOrigin("https://ex.com:8443", "https://ex.com:8443"))
	require.Error(t, validateOrigin("https://ex.com", "http://ex.com"))
	require.Error(t, validateOrigin("https://ex.com:8443", "https://ex.com:9443"))
}
'''))
SEEDS.append(dict(id="c36-max-lost", property="C36", pkg="presexch",
 edits=[("presexch/definition.go", '''		Max:              sr.Max,
		InputDescriptors: inputDescriptors,''', '''		InputDescriptors: inputDescriptors,''')],
 needs="A submission requirement of rule 'pick' with an upper bound.",
 breaks="The upper bound of a submission requirement is lost on the way to matching.",
 test='''package presexch

import (
	"testing"

	"github.com/stretchr/testify/require"
)

func TestZZDemo(t *testing.T) {
	req, err := toRequirement(&SubmissionRequirement{Rule: Pick, Min: 1, Max: 2, From: "A"},
		[]*InputDescriptor{{ID: "a", Group: []string{"A"}}, {ID: "b", Group: []string{"A"}}, {ID: "c", Group: []string{"A"}}})
	require.NoError(t, err)
	require.Equal(t, 1, req.Min)
	require.Equal(t, 2, req.Max)
}
'''))
SEEDS.append(dict(id="c27-open-rlock", property="C27", pkg="legacy/mem",
 edits=[("legacy/mem/mem.go", '''	p.lock.Lock()
	defer p.lock.Unlock()

	store := p.dbs[storeName]
	if store == nil {
		newStore''', '''	p.lock.RLock()
	defer p.lock.RUnlock()

	store := p.dbs[storeName]
	if store == nil {
		newStore''')],
 needs="Stores opened from several goroutines at once.",
 breaks="OpenStore writes the provider's map while holding only the read lock.",
 test='''package mem

import (
	"fmt"
	"sync"
	"testing"
)

func TestZZDemo(t *testing.T) {
	for round := 0; round < 200; round++ {
		p := NewProvider()

		var wg sync.WaitGroup

		for g := 0; g < 16; g++ {
			wg.Add(1)

			go func(g int) {
				defer wg.Done()

				for i := 0; i < 100; i++ {
					_, _ = p.OpenStore(fmt.Sprintf("s%d-%d", g, i))
				}
			}(g)
		}

		wg.Wait()

		if n := len(p.GetOpenStores()); n != 1600 {
			t.Fatalf("%d stores", n)
		}
	}
}
'''))
SEEDS.append(dict(id="c32-last-wins", property="C32", pkg="verifiable",
 edits=[("verifiable/related_resource.go", '''		finalErr = errors.Join(finalErr, <-ch)''', '''		finalErr = <-ch''')],
 needs="A credential with several related resources of which the last one is fine.",
 breaks="Only the last related resource's check decides.",
 test='''package verifiable

import (
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/stretchr/testify/require"
)

func TestZZDemo(t *testing.T) {
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		_, _ = w.Write([]byte("content"))
	}))
	defer srv.Close()

	// multibase SHA-256 of "content"
	const good, bad = "sha256-M7XACtDnprIRfIjV9giusFERzD722AW0+yUMil7nsn3M=", "sha256-M7XACtDnprIRfIjV9giusFERzD722AW0+yUMil7nsn3A="

	v := NewRelatedResourceValidator(WithHTTPClient(srv.Client()))

	check := func(digests ...string) error {
		var rr []RelatedResource
		for _, d := range digests {
			rr = append(rr, RelatedResource{Id: srv.URL, DigestSRI: d})
		}

		vc, err := CreateCredential(CredentialContents{RelatedResources: rr, Issuer: &Issuer{ID: "did:ex:a"}}, nil)
		require.NoError(t, err)

		return v.Validate([]*Credential{vc})
	}

	require.NoError(t, check(good))
	require.NoError(t, check(good, good))
	require.Error(t, check(bad))
	require.Error(t, check(good, bad))
	require.Error(t, check(bad, good))
}
'''))
SEEDS.append(dict(id="c43-plain-element", property="C43", pkg="sdjwt/common",
 edits=[("sdjwt/common/common.go", '''				if !ok {
					continue
				}

				if digestIface, ok''', '''				if !ok {
					break
				}

				if digestIface, ok''')],
 needs="An array claim with a plain element before a selectively disclosable one.",
 breaks="The digests after the plain element are not among the ones found in the claims.",
 test='''package common

import "testing"

func TestZZDemo(t *testing.T) {
	el := func(d string) interface{} { return map[string]interface{}{"...": d} }

	got, err := GetDisclosureDigests(map[string]interface{}{
		"_sd":  []interface{}{"a"},
		"list": []interface{}{el("b"), "plain", el("c"), 7, el("d")},
	})
	if err != nil {
		t.Fatal(err)
	}

	for _, d := range []string{"a", "b", "c", "d"} {
		if !got[d] {
			t.Errorf("%s is missing", d)
		}
	}
}
'''))
SEEDS.append(dict(id="c39-batch-partial", property="C39", pkg="legacy/mem",
 edits=[("legacy/mem/mem.go", '''		if operation.Key == "" {
			return errEmptyKey
		}
	}

	for _, operation := range operations {
		if operation.Value == nil {''', '''		if operation.Key == "" {
			return errEmptyKey
		}

		if operation.Value == nil {''')],
 needs="A batch whose later operation is invalid.",
 breaks="A batch that fails has carried out the operations before the invalid one.",
 test='''package mem

import (
	"testing"

	"github.com/trustbloc/kms-go/spi/storage"
)

func TestZZDemo(t *testing.T) {
	st, err := NewProvider().OpenStore("s")
	if err != nil {
		t.Fatal(err)
	}

	if err := st.Put("kept", []byte("1")); err != nil {
		t.Fatal(err)
	}

	err = st.Batch([]storage.Operation{{Key: "kept"}, {Key: "new", Value: []byte("2")}, {Value: []byte("3")}})
	if err == nil {
		t.Fatal("an empty key was taken")
	}

	if v, err := st.Get("kept"); err != nil || string(v) != "1" {
		t.Errorf("kept: %q, %v", v, err)
	}

	if _, err := st.Get("new"); err == nil {
		t.Error("new was stored")
	}
}
'''))
SEEDS.append(dict(id="c44-group-prefix", property="C44", pkg="presexch",
 edits=[("presexch/definition.go", '''		if el == e {
			return true
		}
	}

	return false''', '''		if strings.HasPrefix(el, e) {
			return true
		}
	}

	return false''')],
 needs="Two groups of descriptors, the name of one of which begins with the name of the other.",
 breaks="A submission requirement takes in the descriptors of a group it does not name.",
 test='''package presexch

import "testing"

func TestZZDemo(t *testing.T) {
	pd := &PresentationDefinition{
		ID:                     "pd",
		SubmissionRequirements: []*SubmissionRequirement{{Rule: All, From: "A"}, {Rule: All, From: "AB"}},
		InputDescriptors: []*InputDescriptor{
			{ID: "1", Group: []string{"A"}, Schema: []*Schema{{URI: "https://example.com/s"}}},
			{ID: "2", Group: []string{"AB"}, Schema: []*Schema{{URI: "https://example.com/s"}}},
		},
	}

	got, err := pd.MatchSubmissionRequirement(nil, nil)
	if err != nil {
		t.Fatal(err)
	}

	if len(got) != 2 {
		t.Fatalf("%d requirements", len(got))
	}

	for i, id := range []string{"1", "2"} {
		if d := got[i].Descriptors; len(d) != 1 || d[0].ID != id {
			t.Errorf("requirement %d has %d descriptors", i, len(d))
		}
	}
}
'''))
