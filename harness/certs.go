package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"time"
)

// ca.pem, and cert.pem and key.pem signed by it, for 127.0.0.1
func init() {
	handlers["certs"] = func(raw json.RawMessage) interface{} {
		var j struct{ Dir string }
		must(raw, &j)
		check := func(err error) {
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(3)
			}
		}
		write := func(name, kind string, b []byte) {
			check(os.WriteFile(filepath.Join(j.Dir, name), pem.EncodeToMemory(&pem.Block{Type: kind, Bytes: b}), 0600))
		}
		cakey, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		check(err)
		key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		check(err)
		ca := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "ca"}, NotBefore: time.Now().Add(-time.Hour),
			NotAfter: time.Now().Add(24 * time.Hour), IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
		der, err := x509.CreateCertificate(rand.Reader, ca, ca, &cakey.PublicKey, cakey)
		check(err)
		write("ca.pem", "CERTIFICATE", der)
		crt := &x509.Certificate{SerialNumber: big.NewInt(2), Subject: pkix.Name{CommonName: "server"}, NotBefore: time.Now().Add(-time.Hour),
			NotAfter: time.Now().Add(24 * time.Hour), IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1)}, KeyUsage: x509.KeyUsageDigitalSignature,
			ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}}
		der, err = x509.CreateCertificate(rand.Reader, crt, ca, &key.PublicKey, cakey)
		check(err)
		write("cert.pem", "CERTIFICATE", der)
		b, err := x509.MarshalECPrivateKey(key)
		check(err)
		write("key.pem", "EC PRIVATE KEY", b)
		return true
	}
}
