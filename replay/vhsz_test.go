package PKG

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/sha256"
	stdx509 "crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/big"
	"net/http"
	"net/http/httptest"
	"time"

	"github.com/google/certificate-transparency-go/x509"
	"github.com/google/certificate-transparency-go/x509util"
	"itko.dev/internal/sunlight"
)

// vhPKI is a root, an intermediate, a precertificate-signing issuer below the intermediate, and a root nobody accepts
type vhPKI struct {
	root, inter, preis, alien *vhCA
	serial                    int64
}

type vhCA struct {
	key  *ecdsa.PrivateKey
	cert *stdx509.Certificate
	der  []byte
}

var vhStart = time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)
var vhLimit = time.Date(2025, 1, 1, 0, 0, 0, 0, time.UTC)

func vhKeyPair() *ecdsa.PrivateKey {
	k, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		panic(err)
	}
	return k
}

func (p *vhPKI) ca(name string, by *vhCA, ekus []asn1.ObjectIdentifier) *vhCA {
	k := vhKeyPair()
	p.serial++
	t := &stdx509.Certificate{SerialNumber: big.NewInt(p.serial), Subject: pkix.Name{CommonName: name}, NotBefore: vhStart.AddDate(-5, 0, 0),
		NotAfter: vhLimit.AddDate(20, 0, 0), IsCA: true, BasicConstraintsValid: true, KeyUsage: stdx509.KeyUsageCertSign,
		SubjectKeyId: []byte(name + "-key-id"), UnknownExtKeyUsage: ekus}
	parent, key := t, k
	if by != nil {
		parent, key = by.cert, by.key
	}
	der, err := stdx509.CreateCertificate(crand.Reader, t, parent, &k.PublicKey, key)
	if err != nil {
		panic(err)
	}
	c, err := stdx509.ParseCertificate(der)
	if err != nil {
		panic(err)
	}
	return &vhCA{k, c, der}
}

func vhNewPKI() *vhPKI {
	p := &vhPKI{serial: 100}
	p.root = p.ca("root", nil, nil)
	p.inter = p.ca("intermediate", p.root, nil)
	p.preis = p.ca("precert signer", p.inter, []asn1.ObjectIdentifier{{1, 3, 6, 1, 4, 1, 11129, 2, 4, 4}})
	p.alien = p.ca("alien", nil, nil)
	return p
}

// leaf issues a certificate, or with poison the precertificate of the same template
func (p *vhPKI) leaf(by *vhCA, serial int64, notAfter time.Time, poison bool, key *ecdsa.PrivateKey) *stdx509.Certificate {
	t := &stdx509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: fmt.Sprintf("leaf %d", serial)},
		DNSNames: []string{fmt.Sprintf("l%d.example", serial)}, NotBefore: notAfter.AddDate(0, -3, 0), NotAfter: notAfter,
		KeyUsage: stdx509.KeyUsageDigitalSignature, ExtKeyUsage: []stdx509.ExtKeyUsage{stdx509.ExtKeyUsageServerAuth}}
	if poison {
		t.ExtraExtensions = []pkix.Extension{{Id: asn1.ObjectIdentifier{1, 3, 6, 1, 4, 1, 11129, 2, 4, 3}, Critical: true, Value: []byte{5, 0}}}
	}
	der, err := stdx509.CreateCertificate(crand.Reader, t, by.cert, &key.PublicKey, by.key)
	if err != nil {
		panic(err)
	}
	c, err := stdx509.ParseCertificate(der)
	if err != nil {
		panic(err)
	}
	return c
}

// a submission and what must be logged for it
type vhSub struct {
	name  string
	pre   bool     // endpoint
	chain [][]byte // as submitted
	ok    bool
	want  *vhEntry // leaf data, without index and time
	fp    [32]byte
	fps   [][32]byte // of the validated chain after the leaf
}

func vhChainFps(cs ...[]byte) (r [][32]byte) {
	for _, c := range cs {
		r = append(r, sha256.Sum256(c))
	}
	return
}

// good returns an acceptable submission of kind 0 certificate, 1 precertificate, 2 precertificate by a precert-signing issuer
func (p *vhPKI) good(kind int, serial int64, withRoot bool) *vhSub {
	key := vhKeyPair()
	na := vhStart.AddDate(0, int(serial%12), 3)
	s := &vhSub{ok: true, name: fmt.Sprintf("kind %d serial %d root %v", kind, serial, withRoot), pre: kind > 0}
	ikh := sha256.Sum256(p.inter.cert.RawSubjectPublicKeyInfo)
	switch kind {
	case 0:
		c := p.leaf(p.inter, serial, na, false, key)
		s.chain = [][]byte{c.Raw, p.inter.der}
		s.want = &vhEntry{Cert: c.Raw}
	case 1:
		c := p.leaf(p.inter, serial, na, true, key)
		f := p.leaf(p.inter, serial, na, false, key)
		s.chain = [][]byte{c.Raw, p.inter.der}
		s.want = &vhEntry{Cert: f.RawTBSCertificate, Pre: c.Raw, IsPre: true, IKH: ikh}
	case 2:
		c := p.leaf(p.preis, serial, na, true, key)
		f := p.leaf(p.inter, serial, na, false, key)
		s.chain = [][]byte{c.Raw, p.preis.der, p.inter.der}
		s.want = &vhEntry{Cert: f.RawTBSCertificate, Pre: c.Raw, IsPre: true, IKH: ikh}
	}
	s.fp = sha256.Sum256(s.chain[0])
	full := append(append([][]byte{}, s.chain[1:]...), p.root.der)
	s.fps = vhChainFps(full...)
	s.want.Chain = full
	if withRoot {
		s.chain = append(s.chain, p.root.der)
	}
	return s
}

func (s *vhSub) body() []byte {
	var b struct {
		Chain [][]byte `json:"chain"`
	}
	b.Chain = s.chain
	j, _ := json.Marshal(b)
	return j
}

// vhStage builds stage zero over a store and an accepted root
func vhStage(p *vhPKI, st Storage, mask int) (*stageZeroData, chan UnsequencedEntryWithReturnPath) {
	pool := x509util.NewPEMCertPool()
	c, err := x509.ParseCertificate(p.root.der)
	if err != nil {
		panic(err)
	}
	pool.AddCert(c)
	k := vhKeyPair()
	ch := make(chan UnsequencedEntryWithReturnPath, 200)
	spki, _ := stdx509.MarshalPKIXPublicKey(&k.PublicKey)
	return &stageZeroData{stageOneTx: ch, roots: pool, notAfterStart: vhStart, notAfterLimit: vhLimit, logID: sha256.Sum256(spki),
		bucket: Bucket{S: st}, maskSize: mask, signingKey: k}, ch
}

func vhPost(d *stageZeroData, pre bool, body []byte) (code int, resp []byte, hdr http.Header) {
	log.SetOutput(io.Discard)
	w := httptest.NewRecorder()
	path := "/ct/v1/add-chain"
	if pre {
		path = "/ct/v1/add-pre-chain"
	}
	r := httptest.NewRequest("POST", path, bytes.NewReader(body))
	if pre {
		d.addPreChain(w, r)
	} else {
		d.addChain(w, r)
	}
	return w.Code, w.Body.Bytes(), w.Header()
}

type vhSCT struct {
	V   int    `json:"sct_version"`
	ID  []byte `json:"id"`
	TS  uint64 `json:"timestamp"`
	Ext string `json:"extensions"`
	Sig []byte `json:"signature"`
}

// vhCheckSCT: the SCT is of this log, for this entry at this index and time; ts < 0: any time
func vhCheckSCT(d *stageZeroData, resp []byte, e vhEntry) (sct vhSCT, problem string) {
	if json.Unmarshal(resp, &sct) != nil {
		return sct, fmt.Sprintf("not an SCT: %q", resp)
	}
	if e.TS < 0 {
		e.TS = int64(sct.TS)
	}
	ext, _ := base64.StdEncoding.DecodeString(sct.Ext)
	if want := vhCat([]byte{0, 0, 5}, vhU(5, e.Idx)); !bytes.Equal(ext, want) {
		return sct, fmt.Sprintf("SCT extensions %x, expected index %d", ext, e.Idx)
	}
	if sct.V != 0 || !bytes.Equal(sct.ID, d.logID[:]) || sct.TS != uint64(e.TS) {
		return sct, fmt.Sprintf("SCT version %d id %x time %d, expected 0, %x, %d", sct.V, sct.ID, sct.TS, d.logID, e.TS)
	}
	if len(sct.Sig) < 4 || sct.Sig[0] != 4 || sct.Sig[1] != 3 || int(sct.Sig[2])<<8+int(sct.Sig[3]) != len(sct.Sig)-4 {
		return sct, fmt.Sprintf("SCT signature struct %x", sct.Sig)
	}
	dg := sha256.Sum256(e.leaf())
	if !ecdsa.VerifyASN1(&d.signingKey.PublicKey, dg[:], sct.Sig[4:]) {
		return sct, fmt.Sprintf("the SCT signature is not over the leaf of index %d time %d", e.Idx, e.TS)
	}
	return sct, ""
}

// vhLeafProblem compares what was handed to the sequencer with what must be logged
func vhLeafProblem(s *vhSub, e *sunlight.UnsequencedEntry) string {
	w := s.want
	if !bytes.Equal(e.Certificate, w.Cert) {
		return fmt.Sprintf("leaf certificate %x, expected %x", e.Certificate, w.Cert)
	}
	if e.IsPrecert != w.IsPre || (w.IsPre && (!bytes.Equal(e.PreCertificate, w.Pre) || e.IssuerKeyHash != w.IKH)) {
		return fmt.Sprintf("kind %v issuer key hash %x, expected %v %x (or another precertificate)", e.IsPrecert, e.IssuerKeyHash, w.IsPre, w.IKH)
	}
	if e.CertificateFp != s.fp {
		return fmt.Sprintf("fingerprint %x, expected %x", e.CertificateFp, s.fp)
	}
	if len(e.ChainFp) != len(s.fps) || len(e.Chain) != len(s.fps) {
		return fmt.Sprintf("%d fingerprints and %d chain certificates, expected %d", len(e.ChainFp), len(e.Chain), len(s.fps))
	}
	for i := range s.fps {
		if e.ChainFp[i] != s.fps[i] || sha256.Sum256(e.Chain[i].Raw) != s.fps[i] {
			return fmt.Sprintf("chain position %d: fingerprint %x, expected %x", i, e.ChainFp[i], s.fps[i])
		}
	}
	return ""
}
