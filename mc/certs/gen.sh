#!/bin/bash
# Regenerates the test identities (committed; the checks only read them).
cd "$(dirname "$0")" || exit 1
t=$(mktemp -d)
touch $t/index.txt; echo 1000 > $t/serial
cat > $t/ca.cnf <<C
[ca]
default_ca=d
[d]
dir=$t
database=$t/index.txt
serial=$t/serial
new_certs_dir=$t
default_md=sha256
policy=p
unique_subject=no
[p]
commonName=supplied
C
mk() { # name ext-lines start end signer-options
  openssl req -newkey rsa:2048 -nodes -keyout $t/$1.key -out $t/$1.csr -subj "/CN=$1" 2>/dev/null
  printf "$2" > $t/ext
  openssl ca -batch -config $t/ca.cnf -in $t/$1.csr -out $t/$1.pem -notext -extfile $t/ext -startdate $3 -enddate $4 $5 2>/dev/null
}
p12() { openssl pkcs12 -export -inkey $t/$1.key -in $t/$1.pem -passout pass:mc -out $1.p12; }
L="basicConstraints=CA:FALSE\nextendedKeyUsage=serverAuth\n"
mk ca "basicConstraints=critical,CA:TRUE\nkeyUsage=critical,keyCertSign,cRLSign\n" 20000101000000Z 21200101000000Z "-selfsign -keyfile $t/ca.key"
cp $t/ca.pem ca.pem
CA="-cert $t/ca.pem -keyfile $t/ca.key"
mk good "subjectAltName=DNS:*.mc.test,DNS:localhost,IP:127.78.0.1\n$L" 20000101000000Z 21200101000000Z "$CA"; p12 good
mk wrong "subjectAltName=DNS:*.other.test,DNS:mc.test,DNS:*.x.mc.test,IP:127.78.0.2\n$L" 20000101000000Z 21200101000000Z "$CA"; p12 wrong
mk expired "subjectAltName=DNS:*.mc.test,DNS:localhost,IP:127.78.0.1\n$L" 20000101000000Z 20010101000000Z "$CA"; p12 expired
mk self "subjectAltName=DNS:*.mc.test,DNS:localhost,IP:127.78.0.1\n$L" 20000101000000Z 21200101000000Z "-selfsign -keyfile $t/self.key"; p12 self
for n in expired good self ca; do openssl x509 -in $t/$n.pem -noout -dates -subject -issuer; done
rm -r "$t"
chmod 644 *.p12 *.pem
