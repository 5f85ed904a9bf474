From 5175ce8d167792252a4748c16a73de88fa884aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:31 +0000
Subject: [PATCH 01/78] fix: sarflags lookups of an unnamed field value return
 "" instead of killing the process

---
 sarflags/sarflags.go | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/sarflags/sarflags.go b/sarflags/sarflags.go
index ad05a5b..aaf0cf0 100644
--- a/sarflags/sarflags.go
+++ b/sarflags/sarflags.go
@@ -688,7 +688,6 @@ func GetStr(curflag uint32, field string) string {
 			return k
 		}
 	}
-	log.Fatalln("GetStr fail Invalid field", field, "in Flag", curflag)
 	return ""
 }
 
@@ -749,7 +748,6 @@ func Name(curflag uint32, field string) string {
 			return k
 		}
 	}
-	log.Fatalln("Name out of range")
 	return ""
 }
 
@@ -809,7 +807,6 @@ func GetDStr(curflag uint16, field string) string {
 			return ki
 		}
 	}
-	log.Fatalln("GetDStr fail Invalid field", field, "in DFlag:", curflag)
 	return ""
 }
 
@@ -873,7 +870,6 @@ func NameD(curdflag uint16, field string) string {
 			return ki
 		}
 	}
-	log.Fatalln("NameD out of range")
 	return ""
 }
 
@@ -954,7 +950,6 @@ func GetTStr(curflag uint8) string {
 			return ki
 		}
 	}
-	log.Fatalln("GetTStr fail Invalid Tflag:", curflag)
 	return ""
 }
 
@@ -987,7 +982,6 @@ func NameT(curtflag uint8) string {
 			return ki
 		}
 	}
-	log.Fatalln("NameT out of range")
 	return ""
 }
 
-- 
2.43.0


From 9309fcc52fbcc27d13f3097c17246d4b03bc727a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:07 +0000
Subject: [PATCH 02/78] fix: sarflags setters report an invalid flag or value
 as an error instead of killing the process

---
 sarflags/sarflags.go | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/sarflags/sarflags.go b/sarflags/sarflags.go
index aaf0cf0..d16e8c2 100644
--- a/sarflags/sarflags.go
+++ b/sarflags/sarflags.go
@@ -7,7 +7,6 @@ import (
 	"errors"
 	"fmt"
 
-	"log"
 	"math"
 	"os"
 	"strings"
@@ -585,7 +584,6 @@ func AddFlag(curflag string, flag string, option string) string {
 		}
 		return newflags
 	}
-	log.Fatalln("Invalid Flag:", flag, "or option:", option)
 	return curflag
 }
 
@@ -696,21 +694,18 @@ func GetStr(curflag uint32, field string) string {
 func Set(curflag uint32, field string, flagname string) (uint32, error) {
 	fl, ok := Flags[field]
 	if !ok {
-		log.Fatalln("Set lookup fail Invalid Flag", field)
 		e := "invalid Flag: " + field
 		return curflag, errors.New(e)
 	}
 
 	if !Good(field) {
 		e := "Set - Invalid Field:" + field + ":"
-		log.Fatalln(e)
 		return curflag, errors.New(e)
 	}
 	// Get the value of the flag
 	newval, ok := Flags[field].Options[flagname]
 	if !ok {
 		e := "Set lookup fail Invalid flagname" + flagname + "in DFlag" + field
-		log.Fatalln(e)
 		return curflag, errors.New(e)
 	}
 
@@ -815,14 +810,12 @@ func SetD(curflag uint16, field string, flagname string) (uint16, error) {
 
 	if !GoodD(field) {
 		e := "Invalid Date Field:" + field + ":"
-		log.Fatalln(e)
 		return curflag, errors.New(e)
 	}
 	// Get the value of the flag
 	newval, ok := DirentFlags[field].Options[flagname]
 	if !ok {
 		e := "SetD lookup fail Invalid flagname" + flagname + "in DFlag" + field
-		log.Fatalln(e)
 		return curflag, errors.New(e)
 	}
 
@@ -899,7 +892,6 @@ func AddFlagD(curflag string, flag string, option string) string {
 		}
 		return newflags
 	}
-	log.Fatalln("Invalid Directory Flag:", flag, "or option:", option)
 	return curflag
 }
 
@@ -958,7 +950,6 @@ func SetT(curflag uint8, flagname string) (uint8, error) {
 
 	newval, found := TimeStamps.Options[flagname]
 	if !found {
-		log.Fatalln("SetT lookup fail Invalid flagname", flagname, "in TFlag")
 		e := "invalid TFlag: " + flagname
 		return curflag, errors.New(e)
 	}
-- 
2.43.0


From da17d644c7e3272790310ccc0e5be9c026c64be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:07 +0000
Subject: [PATCH 03/78] fix: sarflags.ReplaceFlag keeps the other flags
 verbatim and accepts an empty list or a flag without a value

---
 sarflags/sarflags.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sarflags/sarflags.go b/sarflags/sarflags.go
index d16e8c2..0f4a5bb 100644
--- a/sarflags/sarflags.go
+++ b/sarflags/sarflags.go
@@ -595,7 +595,7 @@ func FlagValue(flags, flag string) string {
 	flagslice := strings.Split(flags, ",") // The name=val of the flag
 	for fl := range flagslice {
 		f := strings.Split(flagslice[fl], "=") // f[0]=name f[1]=val
-		if f[0] == flag {
+		if f[0] == flag && len(f) > 1 {
 			return f[1]
 		}
 	}
@@ -615,7 +615,10 @@ func ReplaceFlag(flags, value, option string) string {
 			newflags = AddFlag(newflags, value, option)
 		} else {
 			// Just add the current flag to the list
-			newflags = AddFlag(newflags, strings.Split(flag, "=")[0], strings.Split(flag, "=")[1])
+			if newflags != "" && flag != "" {
+				newflags += ","
+			}
+			newflags += flag
 		}
 	}
 	if !replaced { // We are adding this flag as it does not currently exist
@@ -907,7 +910,10 @@ func ReplaceFlagD(flags, value, option string) string {
 			newflags = AddFlagD(newflags, value, option)
 		} else {
 			// Just add the current flag to the list
-			newflags = AddFlagD(newflags, strings.Split(flag, "=")[0], strings.Split(flag, "=")[1])
+			if newflags != "" && flag != "" {
+				newflags += ","
+			}
+			newflags += flag
 		}
 	}
 	if !replaced { // We are adding this flag as it does not currently exist
-- 
2.43.0


From 7d48dc6ddbd567fdd1dca34039f3f7f3f5b3da98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:07 +0000
Subject: [PATCH 04/78] fix: CopyCliflags copies the IPv6 multicast address and
 the beacon count

---
 sarflags/sarflags.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sarflags/sarflags.go b/sarflags/sarflags.go
index 0f4a5bb..2f1adf0 100644
--- a/sarflags/sarflags.go
+++ b/sarflags/sarflags.go
@@ -631,7 +631,7 @@ func ReplaceFlag(flags, value, option string) string {
 func (s *Cliflags) CopyCliflags() (*Cliflags, error) {
 	d := new(Cliflags)
 	d.V4Multicast = s.V4Multicast
-	d.V6Multicast = s.V4Multicast
+	d.V6Multicast = s.V6Multicast
 	d.Port = s.Port
 	d.Timestamp = s.Timestamp
 	d.Timezone = s.Timezone
@@ -639,6 +639,7 @@ func (s *Cliflags) CopyCliflags() (*Cliflags, error) {
 	d.Ppad = s.Ppad
 	d.Sardir = s.Sardir
 	d.Buffersize = s.Buffersize
+	d.Bcount = s.Bcount
 	// Copy the various Timeouts
 	d.Timeout.Binterval = s.Timeout.Binterval
 	d.Timeout.Metadata = s.Timeout.Metadata
-- 
2.43.0


From b3446cb942dc4f0a9521263a7a4fed065af8a33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:07 +0000
Subject: [PATCH 05/78] fix: sarflags.Test and TestD are false for an unknown
 flag or value

---
 sarflags/sarflags.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sarflags/sarflags.go b/sarflags/sarflags.go
index 2f1adf0..74a9c5e 100644
--- a/sarflags/sarflags.go
+++ b/sarflags/sarflags.go
@@ -733,8 +733,8 @@ func SetFlags(curflag uint32, flags map[string]string) uint32 {
 
 // Test - true if the flag is set in curflag
 func Test(curflag uint32, field, string, flagname string) bool {
-	v, _ := Set(0, field, flagname)
-	return Get(curflag, field) == Get(v, field)
+	v, err := Set(0, field, flagname)
+	return err == nil && Get(curflag, field) == Get(v, field)
 }
 
 // Name - return the name of the flag for field in curflag
@@ -853,8 +853,8 @@ func FlagD() []string {
 
 // TestD - true if the flag is set in curflag
 func TestD(curdflag uint16, field string, flagname string) bool {
-	v, _ := SetD(0, field, flagname)
-	return GetD(curdflag, field) == GetD(v, field)
+	v, err := SetD(0, field, flagname)
+	return err == nil && GetD(curdflag, field) == GetD(v, field)
 }
 
 // NameD - return the name of the flag for field in curdflag
-- 
2.43.0


From 3899ef7b24f4e6019e9675c7766c87879fc2bbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:14 +0000
Subject: [PATCH 06/78] fix: timestamps with nanoseconds are right for every
 time, not just 1970 to 2262

---
 timestamp/timestamp.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/timestamp/timestamp.go b/timestamp/timestamp.go
index 13a8f19..b96922e 100644
--- a/timestamp/timestamp.go
+++ b/timestamp/timestamp.go
@@ -51,19 +51,17 @@ func (t *Timestamp) New(flag string, ts time.Time) error {
 		t.nsecs = 0
 		t.local = ""
 	case "posix32_32":
-		nsecs := ts.UnixNano()
-		t.secs = uint64(nsecs / 1e9)
+		t.secs = uint64(ts.Unix()) // UnixNano would overflow an int64 outside 1678-2262
 		t.ttype = flag
-		t.nsecs = uint64(nsecs % 1e9)
+		t.nsecs = uint64(ts.Nanosecond())
 		if t.secs > sarflags.MaxUint32 {
 			return errors.New("posix32_32:Seconds exceed 32 bits")
 		}
 		t.local = ""
 	case "posix64_32":
-		nsecs := ts.UnixNano()
-		t.secs = uint64(nsecs / 1e9)
+		t.secs = uint64(ts.Unix()) // UnixNano would overflow an int64 outside 1678-2262
 		t.ttype = flag
-		t.nsecs = uint64(nsecs % 1e9)
+		t.nsecs = uint64(ts.Nanosecond())
 		if t.nsecs > sarflags.MaxUint32 {
 			return errors.New("posix64_32:Remainder exceed 32 bits")
 		}
-- 
2.43.0


From 6f6cefd2b796fea16d456dc07d0fb30569f20189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:15 +0000
Subject: [PATCH 07/78] fix: a localinterp timestamp that was sent can be
 received again

---
 timestamp/timestamp.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/timestamp/timestamp.go b/timestamp/timestamp.go
index b96922e..b75229a 100644
--- a/timestamp/timestamp.go
+++ b/timestamp/timestamp.go
@@ -155,10 +155,15 @@ func (t *Timestamp) Get(tstamp []byte) error {
 		t.nsecs = 0
 		t.local = ""
 		t.ttype = ttype
+	case "localinterp":
+		t.secs = 0
+		t.nsecs = 0
+		t.local = strings.TrimRight(string(tstamp[1:15]), "\x00")
+		t.ttype = ttype
 	default:
 		t.secs = 0
 		t.nsecs = 0
-		t.local = string(tstamp[1:15])
+		t.local = ""
 		t.ttype = ttype
 		e := "timestamp.Get: Invalid Timestamp type:" + ttype
 		return errors.New(e)
-- 
2.43.0


From 7b4e2fd4e12333ed4067be56b2d23dd2a62bd413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:15 +0000
Subject: [PATCH 08/78] fix: timestamp.Get returns an error for a truncated
 timestamp instead of panicking

---
 timestamp/timestamp.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/timestamp/timestamp.go b/timestamp/timestamp.go
index b75229a..92ebdda 100644
--- a/timestamp/timestamp.go
+++ b/timestamp/timestamp.go
@@ -127,8 +127,16 @@ func (t *Timestamp) Now(flag string) error {
 // Get -- Get  timestamp from buffer
 func (t *Timestamp) Get(tstamp []byte) error {
 
+	if len(tstamp) == 0 {
+		return errors.New("timestamp.Get: Timestamp too short")
+	}
 	t.header = tstamp[0]
 	ttype := sarflags.GetTStr(t.header)
+	need := map[string]int{"posix32": 5, "posix64": 9, "posix32_32": 9, "posix64_32": 13,
+		"epoch2000_32": 5, "localinterp": 15}
+	if len(tstamp) < need[ttype] {
+		return errors.New("timestamp.Get: Timestamp too short")
+	}
 	switch ttype {
 	case "posix32":
 		t.secs = uint64(binary.BigEndian.Uint32(tstamp[1:5]))
-- 
2.43.0


From 0030a1fec67d1aa231a428b9a221f795192d90d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:17 +0000
Subject: [PATCH 09/78] fix: data.New puts the transfer type it is given into
 the header

---
 data/data.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/data/data.go b/data/data.go
index 8db2b11..2594254 100644
--- a/data/data.go
+++ b/data/data.go
@@ -72,6 +72,9 @@ func (d *Data) New(flags string, info interface{}) error {
 			if f[1] == "bundle" {
 				return errors.New("bundle transfers not supported")
 			}
+			if d.Header, err = sarflags.Set(d.Header, f[0], f[1]); err != nil {
+				return err
+			}
 		case "reqtstamp":
 			switch f[1] {
 			case "no":
-- 
2.43.0


From a0516b535389028487df2cb99982bbc27ff3013d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:17 +0000
Subject: [PATCH 10/78] fix: data.Encode refuses an offset that does not fit
 the descriptor instead of truncating it

---
 data/data.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/data/data.go b/data/data.go
index 2594254..c9193f0 100644
--- a/data/data.go
+++ b/data/data.go
@@ -251,9 +251,15 @@ func (d *Data) Encode() ([]byte, error) {
 	}
 	switch sarflags.GetStr(d.Header, "descriptor") {
 	case "d16":
+		if d.Offset > sarflags.MaxUint16 {
+			return nil, fmt.Errorf("descriptor d16 too small for data offset %d", d.Offset)
+		}
 		binary.BigEndian.PutUint16(frame[pos:pos+2], uint16(d.Offset))
 		pos += 2
 	case "d32":
+		if d.Offset > sarflags.MaxUint32 {
+			return nil, fmt.Errorf("descriptor d32 too small for data offset %d", d.Offset)
+		}
 		binary.BigEndian.PutUint32(frame[pos:pos+4], uint32(d.Offset))
 		pos += 4
 	case "d64":
-- 
2.43.0


From 8920d281c343396198d0bb674d3ff17fa0d1714d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:17 +0000
Subject: [PATCH 11/78] fix: data.Decode checks the frame is long enough and
 takes an empty payload with any descriptor

---
 data/data.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/data/data.go b/data/data.go
index c9193f0..6e6fbc4 100644
--- a/data/data.go
+++ b/data/data.go
@@ -159,6 +159,14 @@ func (d *Data) Decode(frame []byte) error {
 	}
 	d.Header = binary.BigEndian.Uint32(frame[:4])
 	d.Session = binary.BigEndian.Uint32(frame[4:8])
+	need := 8 // Header + Session + Timestamp + Offset
+	if sarflags.GetStr(d.Header, "reqtstamp") == "yes" {
+		need += 16
+	}
+	need += 2 << sarflags.Get(d.Header, "descriptor")
+	if len(frame) < need {
+		return errors.New("data.Get - data frame too short")
+	}
 	if sarflags.GetStr(d.Header, "reqtstamp") == "yes" {
 		if err := d.Tstamp.Get(frame[8:24]); err != nil {
 			return err
@@ -168,9 +176,6 @@ func (d *Data) Decode(frame []byte) error {
 			d.Offset = uint64(binary.BigEndian.Uint16(frame[24:26])) // 2 bytes
 			d.Payload = make([]byte, len(frame[26:]))
 			copy(d.Payload, frame[26:])
-			if len(d.Payload) == 0 {
-				return errors.New("length of data payload is 0")
-			}
 		case "d32":
 			d.Offset = uint64(binary.BigEndian.Uint32(frame[24:28])) // 4 bytes
 			d.Payload = make([]byte, len(frame[28:]))
-- 
2.43.0


From 772c22182bf8e8e3e18ea3b1681f17842ac1b0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:18 +0000
Subject: [PATCH 12/78] fix: frame constructors report a flag without a value
 as an error instead of panicking

---
 beacon/beacon.go     | 3 +++
 data/data.go         | 3 +++
 dirent/dirent.go     | 3 +++
 metadata/metadata.go | 3 +++
 request/request.go   | 3 +++
 status/status.go     | 3 +++
 6 files changed, 18 insertions(+)

diff --git a/beacon/beacon.go b/beacon/beacon.go
index edca92d..839214e 100644
--- a/beacon/beacon.go
+++ b/beacon/beacon.go
@@ -58,6 +58,9 @@ func (b *Beacon) New(flags string, info interface{}) error {
 	flag := strings.Split(flags, ",") // The name=val of the flag
 	for fl := range flag {
 		f := strings.Split(flag[fl], "=") // f[0]=name f[1]=val
+		if len(f) != 2 {
+			return errors.New(flag[fl] + " invalid flag in beacon, must be name=value")
+		}
 
 		switch f[0] {
 		case "descriptor", "stream", "txwilling", "rxwilling", "udplite", "freespace":
diff --git a/data/data.go b/data/data.go
index 6e6fbc4..32840bd 100644
--- a/data/data.go
+++ b/data/data.go
@@ -63,6 +63,9 @@ func (d *Data) New(flags string, info interface{}) error {
 	flag := strings.Split(flags, ",") // The name=val of the flag
 	for fl := range flag {
 		f := strings.Split(flag[fl], "=") // f[0]=name f[1]=val
+		if len(f) != 2 {
+			return errors.New(flag[fl] + " invalid flag in data, must be name=value")
+		}
 		switch f[0] {
 		case "version", "descriptor", "reqstatus", "eod":
 			if d.Header, err = sarflags.Set(d.Header, f[0], f[1]); err != nil {
diff --git a/dirent/dirent.go b/dirent/dirent.go
index 202aa6b..084741f 100644
--- a/dirent/dirent.go
+++ b/dirent/dirent.go
@@ -86,6 +86,9 @@ func (d *DirEnt) New(flags string, path string) error {
 	flag := strings.Split(flags, ",") // The name=val of the flag
 	for fl := range flag {
 		f := strings.Split(flag[fl], "=") // f[0]=name f[1]=val
+		if len(f) != 2 {
+			return errors.New(flag[fl] + " invalid flag in dirent, must be name=value")
+		}
 		switch f[0] {
 		case "descriptor", "property":
 			if d.Header, err = sarflags.SetD(d.Header, f[0], f[1]); err != nil {
diff --git a/metadata/metadata.go b/metadata/metadata.go
index a350420..961a56e 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -126,6 +126,9 @@ func (m *MetaData) New(flags string, info interface{}) error {
 	flag := strings.Split(flags, ",") // The name=val of the flag
 	for fl := range flag {
 		f := strings.Split(flag[fl], "=") // f[0]=name f[1]=val
+		if len(f) != 2 {
+			return errors.New(flag[fl] + " invalid flag in metadata, must be name=value")
+		}
 		switch f[0] {
 		case "descriptor", "progress", "transfer", "reliability":
 			if m.Header, err = sarflags.Set(m.Header, f[0], f[1]); err != nil {
diff --git a/request/request.go b/request/request.go
index 93f9536..99657ee 100644
--- a/request/request.go
+++ b/request/request.go
@@ -58,6 +58,9 @@ func (r *Request) New(flags string, info interface{}) error {
 	flag := strings.Split(flags, ",") // The name=val of the flag
 	for fl := range flag {
 		f := strings.Split(flag[fl], "=") // f[0]=name f[1]=val
+		if len(f) != 2 {
+			return errors.New(flag[fl] + " invalid flag in request, must be name=value")
+		}
 		switch f[0] {
 		case "frametype", "version", "descriptor", "stream", "txwilling",
 			"rxwilling", "fileordir", "reqtype", "udplite":
diff --git a/status/status.go b/status/status.go
index 092f335..e98324f 100644
--- a/status/status.go
+++ b/status/status.go
@@ -74,6 +74,9 @@ func (s *Status) New(flags string, info interface{}) error {
 	flag := strings.Split(flags, ",") // The name=val of the flag
 	for fl := range flag {
 		f := strings.Split(flag[fl], "=") // f[0]=name f[1]=val
+		if len(f) != 2 && !sarflags.GoodT(f[0]) {
+			return errors.New(flag[fl] + " invalid flag in status, must be name=value")
+		}
 		switch f[0] {
 		case "descriptor", "stream", "metadatarecvd", "allholes", "reqholes", "errcode":
 			if s.Header, err = sarflags.Set(s.Header, f[0], f[1]); err != nil {
-- 
2.43.0


From df65345941584fbc3b67ff4a357798971db873a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:12 +0000
Subject: [PATCH 13/78] fix: a status frame with reqtstamp=yes carries its
 timestamp

---
 status/status.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/status/status.go b/status/status.go
index e98324f..e677e76 100644
--- a/status/status.go
+++ b/status/status.go
@@ -133,6 +133,11 @@ func (s *Status) Make(header uint32, info interface{}) error {
 	}
 
 	s.Header = header
+	if sarflags.GetStr(s.Header, "reqtstamp") == "yes" {
+		if err = s.Tstamp.Now("posix32"); err != nil {
+			return err
+		}
+	}
 	e := reflect.ValueOf(info).Elem()
 	s.Session = uint32(e.FieldByName("Session").Uint())
 	s.Progress = e.FieldByName("Progress").Uint()
@@ -157,6 +162,7 @@ func (s Status) Encode() ([]byte, error) {
 
 	if sarflags.GetStr(s.Header, "reqtstamp") == "yes" {
 		framelen += 16 // Timestamp
+		havetstamp = true
 	}
 
 	var dsize int
-- 
2.43.0


From 79638d641a01a2ea51e2e75df37c1785d47ed2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:12 +0000
Subject: [PATCH 14/78] fix: status.Encode refuses values that do not fit the
 descriptor instead of truncating them

---
 status/status.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/status/status.go b/status/status.go
index e677e76..e517904 100644
--- a/status/status.go
+++ b/status/status.go
@@ -180,6 +180,18 @@ func (s Status) Encode() ([]byte, error) {
 	default:
 		return nil, errors.New("invalid descriptor in status")
 	}
+	// Everything has to fit in the descriptor size, dont truncate it
+	if dsize < 8 {
+		max := uint64(1)<<(8*dsize) - 1
+		if s.Progress > max || s.Inrespto > max {
+			return nil, errors.New("descriptor too small for progress or inresponseto in status")
+		}
+		for i := range s.Holes {
+			if uint64(s.Holes[i].Start) > max || uint64(s.Holes[i].End) > max {
+				return nil, errors.New("descriptor too small for holes in status")
+			}
+		}
+	}
 	framelen += (dsize*2 + (dsize * len(s.Holes) * 2)) // progress + inrespto + holes
 	frame := make([]byte, framelen)
 
-- 
2.43.0


From 7de94a972c6541673bb33d61baa743ff8299f41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:12 +0000
Subject: [PATCH 15/78] fix: status.Decode checks the frame is long enough and
 starts with no holes

---
 status/status.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/status/status.go b/status/status.go
index e517904..16fcb64 100644
--- a/status/status.go
+++ b/status/status.go
@@ -109,6 +109,7 @@ func (s *Status) New(flags string, info interface{}) error {
 	s.Session = uint32(e.FieldByName("Session").Uint())
 	s.Progress = e.FieldByName("Progress").Uint()
 	s.Inrespto = e.FieldByName("Inrespto").Uint()
+	s.Holes = nil
 	for i := 0; i < e.FieldByName("Holes").Len(); i++ {
 		var h holes.Hole
 		// Get the Start and End from within the Holes Structure
@@ -142,6 +143,7 @@ func (s *Status) Make(header uint32, info interface{}) error {
 	s.Session = uint32(e.FieldByName("Session").Uint())
 	s.Progress = e.FieldByName("Progress").Uint()
 	s.Inrespto = e.FieldByName("Inrespto").Uint()
+	s.Holes = nil
 	for i := 0; i < e.FieldByName("Holes").Len(); i++ {
 		var h holes.Hole
 		// Get the Start and End from within the Holes Structure
@@ -263,7 +265,15 @@ func (s *Status) Decode(frame []byte) error {
 	}
 	s.Header = binary.BigEndian.Uint32(frame[:4])
 	s.Session = binary.BigEndian.Uint32(frame[4:8])
+	s.Holes = nil
 	pos := 8
+	need := pos + (4 << sarflags.Get(s.Header, "descriptor")) // Progress + Inrespto
+	if sarflags.GetStr(s.Header, "reqtstamp") == "yes" {
+		need += 16
+	}
+	if len(frame) < need {
+		return errors.New("status frame too short")
+	}
 	if sarflags.GetStr(s.Header, "reqtstamp") == "yes" {
 		var err error
 
-- 
2.43.0


From 1e71413ba6aef0a63c25b8de7951410a701d22d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:12 +0000
Subject: [PATCH 16/78] fix: request.New and Make keep the authentication
 field, and Make no longer panics

---
 request/request.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/request/request.go b/request/request.go
index 99657ee..b6e7e39 100644
--- a/request/request.go
+++ b/request/request.go
@@ -74,7 +74,7 @@ func (r *Request) New(flags string, info interface{}) error {
 	e := reflect.ValueOf(info).Elem()
 	r.Session = uint32(e.FieldByName("Session").Uint())
 	r.Fname = e.FieldByName("Fname").String()
-	copy(r.Auth, e.FieldByName("Auth").Bytes())
+	r.Auth = append([]byte(nil), e.FieldByName("Auth").Bytes()...)
 
 	return nil
 }
@@ -96,9 +96,9 @@ func (r *Request) Make(header uint32, info interface{}) error {
 	r.Header = header
 
 	e := reflect.ValueOf(info).Elem()
-	r.Session = uint32(e.Elem().FieldByName("Session").Uint())
+	r.Session = uint32(e.FieldByName("Session").Uint())
 	r.Fname = e.FieldByName("Fname").String()
-	copy(r.Auth, e.FieldByName("Auth").Bytes())
+	r.Auth = append([]byte(nil), e.FieldByName("Auth").Bytes()...)
 
 	return nil
 }
-- 
2.43.0


From 73cd872fa030280d09b00554ff795fb2dd1d4875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:12 +0000
Subject: [PATCH 17/78] fix: request.Decode keeps every byte of the filename
 and rejects one that is not null terminated

---
 request/request.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/request/request.go b/request/request.go
index b6e7e39..ffcd4cd 100644
--- a/request/request.go
+++ b/request/request.go
@@ -3,6 +3,7 @@
 package request
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -106,6 +107,9 @@ func (r *Request) Make(header uint32, info interface{}) error {
 // Put -- Encode the Saratoga Request buffer
 func (r *Request) Encode() ([]byte, error) {
 
+	if strings.IndexByte(r.Fname, 0) >= 0 {
+		return nil, errors.New("request.Encode - filename contains a null")
+	}
 	// Create the frame slice
 	framelen := 4 + 4 + len(r.Fname) + 1 + len(r.Auth) // Header + Session + Fname + NULL + Auth
 	frame := make([]byte, framelen)                    // Allocate the frame buffer
@@ -129,14 +133,12 @@ func (r *Request) Decode(frame []byte) error {
 	}
 	r.Header = binary.BigEndian.Uint32(frame[:4])
 	r.Session = binary.BigEndian.Uint32(frame[4:8])
-	pos := 8
-	for i := range frame[8:] { // Filename in frame is null terminated string
-		if frame[pos+i] == '\x00' { // Hit null
-			break
-		}
-		r.Fname += string(frame[pos+i])
+	null := bytes.IndexByte(frame[8:], 0) // Filename in frame is null terminated string
+	if null < 0 {
+		return errors.New("request.Decode - filename is not null terminated")
 	}
-	pos = 8 + 1 + len(r.Fname)
+	r.Fname = string(frame[8 : 8+null])
+	pos := 8 + 1 + len(r.Fname)
 	if pos == len(frame) { // No following auth field
 		r.Auth = nil
 		return nil
-- 
2.43.0


From 9544dc2b96e114f1caf8365af08ec84b6b1bc8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:12 +0000
Subject: [PATCH 18/78] fix: a directory entry with descriptor d64 can describe
 a file of 4GB or more

---
 dirent/dirent.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/dirent/dirent.go b/dirent/dirent.go
index 084741f..b08d07b 100644
--- a/dirent/dirent.go
+++ b/dirent/dirent.go
@@ -175,10 +175,6 @@ func (d *DirEnt) Encode() ([]byte, error) {
 		}
 		binary.BigEndian.PutUint32(frame[pos:pos+dsize], uint32(d.Size))
 	case 8:
-		if d.Size > sarflags.MaxUint32 { // This should never happen!!!!
-			e := fmt.Sprintf("Descriptor d64 too small for file size %d", d.Size)
-			return nil, errors.New(e)
-		}
 		binary.BigEndian.PutUint64(frame[pos:pos+dsize], uint64(d.Size))
 	default:
 		e := fmt.Sprintf("Malformed Directory Entry Invalid descriptor size %d", d.Size)
-- 
2.43.0


From 8a2844f79557ff4bcc95ae2cae160ba14905f47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:12 +0000
Subject: [PATCH 19/78] fix: dirent.Decode checks the entry is long enough for
 its descriptor

---
 dirent/dirent.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dirent/dirent.go b/dirent/dirent.go
index b08d07b..64eb722 100644
--- a/dirent/dirent.go
+++ b/dirent/dirent.go
@@ -200,6 +200,11 @@ func (d *DirEnt) Decode(frame []byte) error {
 	}
 	d.Header = binary.BigEndian.Uint16(frame[:2])
 
+	// Header + Size + Mtime + Ctime
+	if len(frame) < 2+(2<<sarflags.GetD(d.Header, "descriptor"))+4+4 {
+		return errors.New("DirEntGet - Entry too short")
+	}
+
 	pos := 2
 	switch sarflags.GetDStr(d.Header, "descriptor") {
 	case "d16":
-- 
2.43.0


From 917d3c583f0d60bbff81ca8c9ef78acd7e7f0ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:13 +0000
Subject: [PATCH 20/78] fix: dirent.Decode keeps every byte of the path

---
 dirent/dirent.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dirent/dirent.go b/dirent/dirent.go
index 64eb722..d6d2bc1 100644
--- a/dirent/dirent.go
+++ b/dirent/dirent.go
@@ -246,7 +246,7 @@ func (d *DirEnt) Decode(frame []byte) error {
 		if frame[pos+i] == '\x00' { // Hit null
 			break
 		}
-		d.Path += string(frame[pos+i])
+		d.Path += string(frame[pos+i : pos+i+1])
 	}
 	// fmt.Printf("Path:<%s>\n", d.path)
 	return nil
-- 
2.43.0


From 853b607535383f491e141c80bbed7ca1be36c193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:13 +0000
Subject: [PATCH 21/78] fix: metadata.Make describes the file it is given and
 declares the length of its checksum

---
 metadata/metadata.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index 961a56e..4854b02 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -201,12 +201,16 @@ func (m *MetaData) Make(header uint32, info interface{}) error {
 	if header, err = sarflags.Set(header, "frametype", "metadata"); err != nil {
 		return err
 	}
+	// Set the correct csum length
+	if header, err = sarflags.Set(header, "csumlen", sarflags.GetStr(header, "csumtype")); err != nil {
+		return err
+	}
 	m.Header = header
 
 	var fname string
 	e := reflect.ValueOf(info).Elem()
 	m.Session = uint32(e.FieldByName("Session").Uint())
-	fname = e.FieldByName("Session").String()
+	fname = e.FieldByName("Fname").String()
 	var direntflags string
 	if direntflags, err = statfile(fname, m.Header); err != nil {
 		return err
-- 
2.43.0


From 56f87af0bd4fbe671139d785fd1085065c411c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:13 +0000
Subject: [PATCH 22/78] fix: the modification time in a metadata is that of the
 file, not its ctime

---
 metadata/metadata.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index 4854b02..5920b4f 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -167,7 +167,7 @@ func (m *MetaData) New(flags string, info interface{}) error {
 	m.Dir.Header = d.Header
 	m.Dir.Size = d.Size
 	m.Dir.Ctime = d.Ctime
-	m.Dir.Mtime = d.Ctime
+	m.Dir.Mtime = d.Mtime
 	m.Dir.Path = d.Path
 
 	// Checksum calculation
@@ -224,7 +224,7 @@ func (m *MetaData) Make(header uint32, info interface{}) error {
 	m.Dir.Header = d.Header
 	m.Dir.Size = d.Size
 	m.Dir.Ctime = d.Ctime
-	m.Dir.Mtime = d.Ctime
+	m.Dir.Mtime = d.Mtime
 	m.Dir.Path = d.Path
 
 	// Make sure we dont try and calc a checksum of a named pipe "stream" (it will wait forever)
-- 
2.43.0


From 1657218285a6e9abb60159f6515552c7f461e60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:13 +0000
Subject: [PATCH 23/78] fix: metadata.New without a csumtype flag means no
 checksum, as the header it builds says

---
 metadata/metadata.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index 5920b4f..f241513 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -120,7 +120,6 @@ func (m *MetaData) New(flags string, info interface{}) error {
 	if m.Header, err = sarflags.Set(m.Header, "frametype", "metadata"); err != nil {
 		return err
 	}
-	var csumtype string // Checksum type
 
 	// Grab the flags and set the frame header
 	flag := strings.Split(flags, ",") // The name=val of the flag
@@ -142,7 +141,6 @@ func (m *MetaData) New(flags string, info interface{}) error {
 			if m.Header, err = sarflags.Set(m.Header, "csumlen", f[1]); err != nil {
 				return err
 			}
-			csumtype = f[1]
 		default:
 			return errors.New(f[0] + "invalid flag for MetaData Frame")
 		}
@@ -175,7 +173,7 @@ func (m *MetaData) New(flags string, info interface{}) error {
 		// Make sure we dont try and calc a checksum of a named pipe (it will wait forever)
 		var checksum []byte
 
-		if checksum, err = fileio.Checksum(csumtype, fname); err != nil {
+		if checksum, err = fileio.Checksum(sarflags.GetStr(m.Header, "csumtype"), fname); err != nil {
 			return err
 		}
 		csumlen := len(checksum)
-- 
2.43.0


From fb9f4cdf06d328a81fea23b77436f7b6e758ab88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:13 +0000
Subject: [PATCH 24/78] fix: metadata reports a directory entry it cannot
 encode, and a frame too short for its checksum

---
 metadata/metadata.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index f241513..025fb6d 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -249,7 +249,10 @@ func (m *MetaData) Encode() ([]byte, error) {
 	// Create the frame slice
 	framelen := 4 + 4 // Header + Session
 	framelen += len(m.Checksum)
-	de, _ := m.Dir.Encode()
+	de, err := m.Dir.Encode()
+	if err != nil {
+		return nil, err
+	}
 	framelen += len(de)
 
 	frame := make([]byte, framelen)
@@ -282,6 +285,9 @@ func (m *MetaData) Decode(frame []byte) (err error) {
 
 	// Checksum
 	csuml := int(sarflags.Get(m.Header, "csumlen")) * 4
+	if len(frame) < pos+csuml {
+		return errors.New("MetaDataGet - Frame too short")
+	}
 	m.Checksum = make([]byte, csuml)
 	copy(m.Checksum, frame[pos:pos+csuml])
 	pos += csuml
-- 
2.43.0


From 76dd1694d2b162d2df3da8c7e13e1cc2dac318c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:13 +0000
Subject: [PATCH 25/78] fix: beacon.Decode checks the frame is long enough

---
 beacon/beacon.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/beacon/beacon.go b/beacon/beacon.go
index 839214e..4ea7868 100644
--- a/beacon/beacon.go
+++ b/beacon/beacon.go
@@ -250,7 +250,14 @@ func (b Beacon) Encode() ([]byte, error) {
 // Get -- Decode Beacon byte slice frame into Beacon struct
 func (b *Beacon) Decode(frame []byte) error {
 
+	if len(frame) < 4 {
+		return errors.New("beacon.Decode - beacon frame too short")
+	}
 	b.Header = binary.BigEndian.Uint32(frame[:4])
+	if sarflags.GetStr(b.Header, "freespace") == "yes" &&
+		len(frame) < 4+(2<<sarflags.Get(b.Header, "freespaced")) {
+		return errors.New("beacon.Decode - beacon frame too short")
+	}
 	if sarflags.GetStr(b.Header, "freespace") == "yes" {
 		switch sarflags.GetStr(b.Header, "freespaced") {
 		case "d16":
-- 
2.43.0


From 6c9940248707e857f59543a999311ff9638e1a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:13 +0000
Subject: [PATCH 26/78] fix: beacon.Encode refuses a freespace that does not
 fit the descriptor instead of truncating it

---
 beacon/beacon.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/beacon/beacon.go b/beacon/beacon.go
index 4ea7868..a167663 100644
--- a/beacon/beacon.go
+++ b/beacon/beacon.go
@@ -228,9 +228,15 @@ func (b Beacon) Encode() ([]byte, error) {
 	if sarflags.GetStr(b.Header, "freespace") == "yes" {
 		switch sarflags.GetStr(b.Header, "freespaced") {
 		case "d16":
+			if b.Freespace > sarflags.MaxUint16 {
+				return nil, fmt.Errorf("freespaced d16 too small for freespace %d", b.Freespace)
+			}
 			binary.BigEndian.PutUint16(frame[pos:6], uint16(b.Freespace))
 			pos += 2
 		case "d32":
+			if b.Freespace > sarflags.MaxUint32 {
+				return nil, fmt.Errorf("freespaced d32 too small for freespace %d", b.Freespace)
+			}
 			binary.BigEndian.PutUint32(frame[pos:8], uint32(b.Freespace))
 			pos += 4
 		case "d64":
-- 
2.43.0


From a023c377dffb350e93be97369075a9f789683eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:14 +0000
Subject: [PATCH 27/78] fix: beacon.NewPeer looks a peer up and adds it under
 one lock, so it is never added twice

---
 beacon/beacon.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/beacon/beacon.go b/beacon/beacon.go
index a167663..d09a3b2 100644
--- a/beacon/beacon.go
+++ b/beacon/beacon.go
@@ -361,11 +361,11 @@ func NewPeer(b *Beacon, from *net.UDPAddr) bool {
 	if from == nil {
 		return false
 	}
+	pmu.Lock()
+	defer pmu.Unlock()
 	// Scan through existing Peers and change if the peer exists
 	for p := range Peers {
 		if Peers[p].Addr == from.IP.String() { // Source Ip Address matches existing Peer
-			pmu.Lock()
-			defer pmu.Unlock()
 			// Has anything changed since the last beacon for this peer ?
 			if Peers[p].Freespace != b.Freespace ||
 				Peers[p].Eid != b.Eid ||
@@ -394,8 +394,6 @@ func NewPeer(b *Beacon, from *net.UDPAddr) bool {
 	newp.Cantx = sarflags.GetStr(b.Header, "txwilling")
 	newp.Created.Now("posix32_32")
 	newp.Updated = newp.Created
-	pmu.Lock()
-	defer pmu.Unlock()
 	Peers = append(Peers, *newp)
 	return true
 }
-- 
2.43.0


From c699077a7f7384ce1fbe5ec500330c2cc5334a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:25 +0000
Subject: [PATCH 28/78] fix: FileOpen looks for the file it opens, and never
 truncates an existing file for a get or take

---
 fileio/fileio.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fileio/fileio.go b/fileio/fileio.go
index a81ce17..95c32ab 100644
--- a/fileio/fileio.go
+++ b/fileio/fileio.go
@@ -35,16 +35,16 @@ func FileOpen(fname string, ttype string) (*os.File, error) {
 	case "get", "take": // We are getting a remote file
 		// Open up to write to a local file
 		// Dont stomp on any existing file
-		if FileExists(fullname) {
+		if FileExists(fname) {
 			return nil, fmt.Errorf("file already exists:  %s", fullname)
 		}
 		// Create the file
-		if fp, err = os.Create(fullname); err == nil {
+		if fp, err = os.OpenFile(fullname, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0666); err == nil {
 			return fp, nil
 		}
 		return nil, err
 	case "getdir": // We are getting all the files from a remote directory
-		if FileExists(fullname) {
+		if FileExists(fname) {
 			return nil, fmt.Errorf("directory already exists: %s", fullname)
 		}
 		// Create the Directory
@@ -59,7 +59,7 @@ func FileOpen(fname string, ttype string) (*os.File, error) {
 		return nil, err
 	case "put", "give": // We are putting a local file to a remote system
 		// Open up to read from the local file
-		if !FileExists(fullname) {
+		if !FileExists(fname) {
 			return nil, fmt.Errorf("file does not exist: %s", fullname)
 		}
 		if fp, err = os.Open(fullname); err == nil {
-- 
2.43.0


From f4d2c4a5937a06fce7bd88111ce7787e732d9900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:26 +0000
Subject: [PATCH 29/78] fix: FileDelete removes the file it was given

---
 fileio/fileio.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fileio/fileio.go b/fileio/fileio.go
index 95c32ab..fe1dcd4 100644
--- a/fileio/fileio.go
+++ b/fileio/fileio.go
@@ -148,7 +148,7 @@ func FileDelete(fp *os.File) error {
 	if fp != nil {
 		fname := fp.Name()
 		FileClose(fp)
-		return FileRm(fname)
+		return os.Remove(fname) // fname already has the Saratoga Directory in it
 	}
 	return fmt.Errorf("no existing open file to delete")
 }
-- 
2.43.0


From c7299de7687e14310ff67558dcc1faa7491f1dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:26 +0000
Subject: [PATCH 30/78] fix: FileMeta does not panic on a dangling or relative
 symbolic link or an unreadable path

---
 fileio/fileio.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fileio/fileio.go b/fileio/fileio.go
index fe1dcd4..bd42c9e 100644
--- a/fileio/fileio.go
+++ b/fileio/fileio.go
@@ -177,20 +177,20 @@ func FileMeta(filePath string) (*FileMetaData, error) {
 	var err error
 	var info os.FileInfo
 	fullname := Sardir() + "/" + filePath
-	if info, err = os.Lstat(fullname); os.IsNotExist(err) {
+	if info, err = os.Lstat(fullname); err != nil {
 		return nil, err
 	}
 	// Symbolic Links and Named Pipes are treated as "special files"
 	if info.Mode()&os.ModeSymlink == os.ModeSymlink {
 		fs.IsSymLink = true
-		fs.Origin, _ = os.Readlink(fs.Path)
 		var patherr error
 		if fs.Origin, patherr = os.Readlink(fullname); patherr != nil {
 			return nil, patherr
 		}
-		origstat, _ := os.Lstat(fs.Origin)
 		// Yes we can be a symbolic link to a directory so both are true
-		fs.IsDir = origstat.IsDir()
+		if origstat, staterr := os.Stat(fullname); staterr == nil {
+			fs.IsDir = origstat.IsDir()
+		}
 	} else {
 		fs.IsDir = info.IsDir()
 	}
-- 
2.43.0


From d3eabf5c14a201ab2df65833e88ea1f0eb6cd58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:26 +0000
Subject: [PATCH 31/78] fix: a file name never reaches outside of the saratoga
 directory

---
 fileio/fileio.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/fileio/fileio.go b/fileio/fileio.go
index bd42c9e..06cabca 100644
--- a/fileio/fileio.go
+++ b/fileio/fileio.go
@@ -4,6 +4,7 @@ package fileio
 import (
 	"fmt"
 	"os"
+	"path/filepath"
 	"time"
 
 	"github.com/charlesetsmith/saratoga/sarflags"
@@ -15,10 +16,15 @@ func Sardir() string {
 	return sarflags.Cliflag.Sardir
 }
 
+// Full path of a file in the Saratoga Directory, whatever the name it is always within it
+func fullpath(fname string) string {
+	return filepath.Join(Sardir(), filepath.Clean("/"+fname))
+}
+
 // Check to see if a file or directory exists on our local system
 // no named pipes or symbolic links supported at this time
 func FileExists(fname string) bool {
-	fullname := Sardir() + "/" + fname
+	fullname := fullpath(fname)
 	fileinfo, err := os.Stat(fullname)
 	if err == nil && (fileinfo.Mode().IsDir() || fileinfo.Mode().IsRegular()) {
 		return true
@@ -30,7 +36,7 @@ func FileExists(fname string) bool {
 func FileOpen(fname string, ttype string) (*os.File, error) {
 	var err error
 	var fp *os.File
-	fullname := Sardir() + "/" + fname
+	fullname := fullpath(fname)
 	switch ttype {
 	case "get", "take": // We are getting a remote file
 		// Open up to write to a local file
@@ -138,7 +144,10 @@ func FileClose(fp *os.File) error {
 
 // Just Zap the file
 func FileRm(fname string) error {
-	fullname := Sardir() + "/" + fname
+	fullname := fullpath(fname)
+	if fullname == filepath.Clean(Sardir()) {
+		return fmt.Errorf("cannot remove the saratoga directory: %s", fullname)
+	}
 	return os.Remove(fullname)
 }
 
@@ -176,7 +185,7 @@ func FileMeta(filePath string) (*FileMetaData, error) {
 
 	var err error
 	var info os.FileInfo
-	fullname := Sardir() + "/" + filePath
+	fullname := fullpath(filePath)
 	if info, err = os.Lstat(fullname); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 6be6d70dabe668d5fbc02507ef3c88f30cbf1070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:26 +0000
Subject: [PATCH 32/78] fix: FileOpen opens the local file of a putblind

---
 fileio/fileio.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fileio/fileio.go b/fileio/fileio.go
index 06cabca..a937f9f 100644
--- a/fileio/fileio.go
+++ b/fileio/fileio.go
@@ -63,7 +63,7 @@ func FileOpen(fname string, ttype string) (*os.File, error) {
 			}
 		}
 		return nil, err
-	case "put", "give": // We are putting a local file to a remote system
+	case "put", "give", "putblind": // We are putting a local file to a remote system
 		// Open up to read from the local file
 		if !FileExists(fname) {
 			return nil, fmt.Errorf("file does not exist: %s", fullname)
-- 
2.43.0


From a8b47c1e3bbc8c41c4f3f9011574196d6dfa6983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:52 +0000
Subject: [PATCH 33/78] fix: AddRxTran takes the transfer type from the reqtype
 flag, no request could ever be accepted

---
 trans/trans.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trans/trans.go b/trans/trans.go
index ebb2117..9a46c19 100644
--- a/trans/trans.go
+++ b/trans/trans.go
@@ -48,7 +48,7 @@ var Transfers = []Transfer{}
 // Create the transfer associated with the received request
 // Send status frame back via the tx channel upon failure or success
 func AddRxTran(g *gocui.Gui, r *request.Request, from *net.UDPAddr, tx chan interface{}) bool {
-	ttype := sarflags.GetStr(r.Header, "request")
+	ttype := sarflags.GetStr(r.Header, "reqtype")
 
 	// If a bad version received then send back a Status errcode to the initiator
 	var st status.Status
-- 
2.43.0


From a5a3b29d2f8a9c8258e3f9ebda792b0152eff600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:52 +0000
Subject: [PATCH 34/78] fix: the status sent back for a request carries the
 session of the request

---
 trans/trans.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trans/trans.go b/trans/trans.go
index 9a46c19..84ad8fc 100644
--- a/trans/trans.go
+++ b/trans/trans.go
@@ -52,7 +52,7 @@ func AddRxTran(g *gocui.Gui, r *request.Request, from *net.UDPAddr, tx chan inte
 
 	// If a bad version received then send back a Status errcode to the initiator
 	var st status.Status
-	sinfo := status.Sinfo{Session: 0, Progress: 0, Inrespto: 0, Holes: nil}
+	sinfo := status.Sinfo{Session: r.Session, Progress: 0, Inrespto: 0, Holes: nil}
 
 	if sarflags.GetStr(r.Header, "version") != "v1" {
 		if st.New("errcode=badrequest", &sinfo) != nil {
-- 
2.43.0


From 5d149859faf981eca2c7a79b08ae29690a8c780f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:52 +0000
Subject: [PATCH 35/78] fix: a new transfer gets its timestamp, there is no
 type epoch_2000_32

---
 trans/trans.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trans/trans.go b/trans/trans.go
index 84ad8fc..3c253df 100644
--- a/trans/trans.go
+++ b/trans/trans.go
@@ -203,7 +203,7 @@ func AddRxTran(g *gocui.Gui, r *request.Request, from *net.UDPAddr, tx chan inte
 		tx <- st.Val(from)
 		return false
 	}
-	timetype := "epoch_2000_32"
+	timetype := "epoch2000_32"
 	ts := new(timestamp.Timestamp)
 	ts.Now(timetype)
 	dent := new(dirent.DirEnt)
-- 
2.43.0


From e338b3a83750a1b41dff34bd1eebcd557984b114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:52 +0000
Subject: [PATCH 36/78] fix: a request without a file name is a badrequest

---
 trans/trans.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/trans/trans.go b/trans/trans.go
index 3c253df..01e9015 100644
--- a/trans/trans.go
+++ b/trans/trans.go
@@ -113,6 +113,17 @@ func AddRxTran(g *gocui.Gui, r *request.Request, from *net.UDPAddr, tx chan inte
 		return false
 	}
 
+	// A transfer or delete without a file name is an error
+	if r.Fname == "" {
+		sarwin.ErrPrintln(g, "red_black", "No file name in request")
+		if st.New("errcode=badrequest", &sinfo) != nil {
+			sarwin.ErrPrintln(g, "red_black", "Cannot create badrequest status")
+			return false
+		}
+		tx <- st.Val(from)
+		return false
+	}
+
 	// See if the file exists on our local system
 	exists := fileio.FileExists(r.Fname)
 	switch ttype {
-- 
2.43.0


From 858da4bf8fa8e69818aa0703119b13ad7d648e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:53 +0000
Subject: [PATCH 37/78] fix: there is never more than one transfer for a peer
 and session

---
 trans/trans.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/trans/trans.go b/trans/trans.go
index 01e9015..afc0797 100644
--- a/trans/trans.go
+++ b/trans/trans.go
@@ -44,6 +44,20 @@ var Trmu sync.Mutex
 // Transfers - Slice of transfers currently in progress
 var Transfers = []Transfer{}
 
+// Add the transfer to our current slice, session + peer is the unique key
+// A repeat of a request we already have is ok but does not add another transfer
+func addtran(t Transfer) bool {
+	Trmu.Lock()
+	defer Trmu.Unlock()
+	for i := range Transfers {
+		if Transfers[i].Session == t.Session && Transfers[i].Peer.String() == t.Peer.String() {
+			return Transfers[i].Ttype == t.Ttype && Transfers[i].Filename == t.Filename
+		}
+	}
+	Transfers = append(Transfers, t)
+	return true
+}
+
 // We have received a request frame from a remote host
 // Create the transfer associated with the received request
 // Send status frame back via the tx channel upon failure or success
@@ -219,8 +233,6 @@ func AddRxTran(g *gocui.Gui, r *request.Request, from *net.UDPAddr, tx chan inte
 	ts.Now(timetype)
 	dent := new(dirent.DirEnt)
 
-	// Do some error checking to see that the transfer is not already underway
-
 	// Initialise the Transfer with the information we have in the request
 	t := Transfer{Peer: *from, Session: r.Session, Ttype: ttype,
 		Filename: r.Fname,
@@ -230,10 +242,16 @@ func AddRxTran(g *gocui.Gui, r *request.Request, from *net.UDPAddr, tx chan inte
 		Data: nil, Dcount: 0,
 		Progress: 0, Inrespto: 0, CurFills: nil}
 
-	// Add the transfer to our current slice
-	Trmu.Lock()
-	Transfers = append(Transfers, t)
-	Trmu.Unlock()
+	// Add the transfer to our current slice unless it is already underway
+	if !addtran(t) {
+		sarwin.ErrPrintln(g, "red_black", "Another transfer is underway from ", from.String(), " session ", r.Session)
+		if st.New("errcode=badrequest", &sinfo) != nil {
+			sarwin.ErrPrintln(g, "red_black", "Cannot create badrequest status")
+			return false
+		}
+		tx <- st.Val(from)
+		return false
+	}
 	// Create STATUS and set errcode to "success"
 	if st.New("errcode=success", &sinfo) != nil {
 		sarwin.ErrPrintln(g, "red_black", "Cannot create success status")
-- 
2.43.0


From f01fbd3f86938ee7174b16ee079ea52f57077902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:36 +0000
Subject: [PATCH 38/78] fix: frames can be sent on the connection of a
 transfer, WriteTo always fails on a connected socket

---
 data/data.go         | 7 ++++++-
 metadata/metadata.go | 7 ++++++-
 request/request.go   | 7 ++++++-
 status/status.go     | 7 ++++++-
 4 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/data/data.go b/data/data.go
index 32840bd..3745db5 100644
--- a/data/data.go
+++ b/data/data.go
@@ -321,7 +321,12 @@ func (d Data) Send(conn *net.UDPConn, to *net.UDPAddr) error {
 	if buf, err = d.Encode(); err != nil {
 		return err
 	}
-	if wlen, err = conn.WriteTo(buf, to); err != nil {
+	if conn.RemoteAddr() != nil { // Already connected to the peer
+		wlen, err = conn.Write(buf)
+	} else {
+		wlen, err = conn.WriteTo(buf, to)
+	}
+	if err != nil {
 		return err
 	}
 	if wlen != len(buf) {
diff --git a/metadata/metadata.go b/metadata/metadata.go
index 025fb6d..d039d9a 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -335,7 +335,12 @@ func (m MetaData) Send(conn *net.UDPConn, to *net.UDPAddr) error {
 	if buf, err = m.Encode(); err != nil {
 		return err
 	}
-	if wlen, err = conn.WriteTo(buf, to); err != nil {
+	if conn.RemoteAddr() != nil { // Already connected to the peer
+		wlen, err = conn.Write(buf)
+	} else {
+		wlen, err = conn.WriteTo(buf, to)
+	}
+	if err != nil {
 		return err
 	}
 	if wlen != len(buf) {
diff --git a/request/request.go b/request/request.go
index ffcd4cd..473cb6e 100644
--- a/request/request.go
+++ b/request/request.go
@@ -181,7 +181,12 @@ func (r Request) Send(conn *net.UDPConn, to *net.UDPAddr) error {
 	if buf, err = r.Encode(); err != nil {
 		return err
 	}
-	if wlen, err = conn.WriteTo(buf, to); err != nil {
+	if conn.RemoteAddr() != nil { // Already connected to the peer
+		wlen, err = conn.Write(buf)
+	} else {
+		wlen, err = conn.WriteTo(buf, to)
+	}
+	if err != nil {
 		return err
 	}
 	if wlen != len(buf) {
diff --git a/status/status.go b/status/status.go
index 16fcb64..f940c05 100644
--- a/status/status.go
+++ b/status/status.go
@@ -395,7 +395,12 @@ func (s Status) Send(conn *net.UDPConn, to *net.UDPAddr) error {
 	if buf, err = s.Encode(); err != nil {
 		return err
 	}
-	if wlen, err = conn.WriteTo(buf, to); err != nil {
+	if conn.RemoteAddr() != nil { // Already connected to the peer
+		wlen, err = conn.Write(buf)
+	} else {
+		wlen, err = conn.WriteTo(buf, to)
+	}
+	if err != nil {
 		return err
 	}
 	if wlen != len(buf) {
-- 
2.43.0


From 54b1742d5ae621c121250f253575da88f8baa148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:55 +0000
Subject: [PATCH 39/78] fix: the status for a request is sent, and does not
 block the main loop that sends it

---
 saratoga/saratoga.go | 90 ++++++++++++++++++++------------------------
 1 file changed, 40 insertions(+), 50 deletions(-)

diff --git a/saratoga/saratoga.go b/saratoga/saratoga.go
index 28ec1ed..faf1b06 100644
--- a/saratoga/saratoga.go
+++ b/saratoga/saratoga.go
@@ -423,6 +423,30 @@ func listen(g *gocui.Gui, conn *net.UDPConn, rx chan interface{}, tx chan interf
 	}
 }
 
+// Send a frame out the connection to the host it is addressed to
+func transmit(g *gocui.Gui, ipver string, conn *net.UDPConn, frame interface{}) {
+	var err error
+	switch pkt := frame.(type) {
+	case data.Packet:
+		sarwin.MsgPrintln(g, "blue_black", "Send "+ipver+" Saratoga DATA Frame ", pkt.Info.ShortPrint())
+		err = pkt.Info.Send(conn, &pkt.Addr)
+	case metadata.Packet:
+		sarwin.MsgPrintln(g, "blue_black", "Send "+ipver+" Saratoga METADATA Frame ", pkt.Info.ShortPrint())
+		err = pkt.Info.Send(conn, &pkt.Addr)
+	case request.Packet:
+		sarwin.MsgPrintln(g, "blue_black", "Send "+ipver+" Saratoga REQUEST Frame ", pkt.Info.ShortPrint())
+		err = pkt.Info.Send(conn, &pkt.Addr)
+	case status.Packet:
+		sarwin.MsgPrintln(g, "blue_black", "Send "+ipver+" Saratoga STATUS Frame ", pkt.Info.ShortPrint())
+		err = pkt.Info.Send(conn, &pkt.Addr)
+	default:
+		sarwin.ErrPrintln(g, "red_black", "Need to send "+ipver+" Saratoga INVALID Frame")
+	}
+	if err != nil {
+		sarwin.ErrPrintln(g, "red_black", "Cannot send "+ipver+" Saratoga Frame ", err)
+	}
+}
+
 // Peer - beacon peer
 type Peer struct {
 	Addr      string              // The Peer IP Address. is format net.UDPAddr.IP.String()
@@ -627,9 +651,15 @@ func main() {
 				pkt := rxv4.(request.Packet)
 				sarwin.PacketPrintln(g, "white_black", "Rx", pkt.Info.ShortPrint())
 				// We have received a request to send or receive a file or dir
-				if trans.AddRxTran(g, &pkt.Info, &pkt.Addr, txv4frame) {
+				// The status to send back comes via its own channel, we are the reader of txv4frame
+				reply := make(chan interface{}, 1)
+				if trans.AddRxTran(g, &pkt.Info, &pkt.Addr, reply) {
 					sarwin.MsgPrintln(g, "yellow_black", "New transfer request from ", pkt.Addr.String())
 				}
+				close(reply)
+				for st := range reply {
+					transmit(g, "v4", v4mcastcon, st)
+				}
 			case status.Packet:
 				sarwin.MsgPrintln(g, "white_black", "Received v4 Saratoga STATUS Frame")
 				pkt := rxv4.(status.Packet)
@@ -659,9 +689,15 @@ func main() {
 				sarwin.MsgPrintln(g, "white_black", "Received v6 Saratoga REQUEST Frame")
 				pkt := rxv6.(request.Packet)
 				sarwin.PacketPrintln(g, "white_black", "Rx", pkt.Info.ShortPrint())
-				if trans.AddRxTran(g, &pkt.Info, &pkt.Addr, txv6frame) {
+				// The status to send back comes via its own channel, we are the reader of txv6frame
+				reply := make(chan interface{}, 1)
+				if trans.AddRxTran(g, &pkt.Info, &pkt.Addr, reply) {
 					sarwin.MsgPrintln(g, "yellow_black", "New transfer request from ", pkt.Addr.String())
 				}
+				close(reply)
+				for st := range reply {
+					transmit(g, "v6", v6mcastcon, st)
+				}
 			case status.Packet:
 				sarwin.MsgPrintln(g, "white_black", "Received v6 Saratoga STATUS Frame")
 				pkt := rxv6.(status.Packet)
@@ -670,55 +706,9 @@ func main() {
 				sarwin.ErrPrintln(g, "white_black", "Received v6 Saratoga INVALID Frame")
 			}
 		case txv4 := <-txv4frame:
-			switch txv4.(type) {
-			case beacon.Packet:
-				sarwin.MsgPrintln(g, "blue_black", "Need to send v4 Saratoga BEACON Frame")
-				pkt := txv4.(beacon.Packet)
-				sarwin.MsgPrintln(g, "blue_black", pkt.Info.ShortPrint())
-			case data.Packet:
-				sarwin.MsgPrintln(g, "blue_black", "Need to send v4 Saratoga DATA Frame")
-				pkt := txv4.(data.Packet)
-				sarwin.MsgPrintln(g, "blue_black", pkt.Info.ShortPrint())
-			case metadata.Packet:
-				sarwin.MsgPrintln(g, "blue_black", "Need to send v4 Saratoga METADATA Frame")
-				pkt := txv4.(metadata.Packet)
-				sarwin.MsgPrintln(g, "blue_black", pkt.Info.ShortPrint())
-			case request.Packet:
-				sarwin.MsgPrintln(g, "blue_black", "Need to send v4 Saratoga REQUEST Frame")
-				pkt := txv4.(request.Packet)
-				sarwin.MsgPrintln(g, "blue_black", pkt.Info.ShortPrint())
-			case status.Packet:
-				sarwin.MsgPrintln(g, "blue_black", "Need to send v4 Saratoga STATUS Frame")
-				pkt := txv4.(status.Packet)
-				sarwin.MsgPrintln(g, "blue_black", pkt.Info.ShortPrint())
-			default:
-				sarwin.ErrPrintln(g, "red_black", "Need to send v4 Saratoga INVALID Frame")
-			}
+			transmit(g, "v4", v4mcastcon, txv4)
 		case txv6 := <-txv6frame:
-			switch txv6.(type) {
-			case beacon.Packet:
-				sarwin.MsgPrintln(g, "blue_black", "Need to send v6 Saratoga BEACON Frame")
-				pkt := txv6.(beacon.Packet)
-				sarwin.MsgPrintln(g, "blue_black", pkt.Info.ShortPrint())
-			case data.Packet:
-				sarwin.MsgPrintln(g, "blue_black", "Need to send v6 Saratoga DATA Frame")
-				pkt := txv6.(data.Packet)
-				sarwin.MsgPrintln(g, "blue_black", pkt.Info.ShortPrint())
-			case metadata.Packet:
-				sarwin.MsgPrintln(g, "blue_black", "Need to send v6 Saratoga METADATA Frame")
-				pkt := txv6.(metadata.Packet)
-				sarwin.MsgPrintln(g, "blue_black", pkt.Info.ShortPrint())
-			case request.Packet:
-				sarwin.MsgPrintln(g, "blue_black", "Need to send v6 Saratoga REQUEST Frame")
-				pkt := txv6.(request.Packet)
-				sarwin.MsgPrintln(g, "blue_black", pkt.Info.ShortPrint())
-			case status.Packet:
-				sarwin.MsgPrintln(g, "blue_black", "Need to send v6 Saratoga STATUS Frame")
-				pkt := txv6.(status.Packet)
-				sarwin.MsgPrintln(g, "blue_black", pkt.Info.ShortPrint())
-			default:
-				sarwin.ErrPrintln(g, "blue_black", "Need to send v6 Saratoga INVALID Frame")
-			}
+			transmit(g, "v6", v6mcastcon, txv6)
 		case v4err := <-v4listenquit:
 			log.Fatal("Saratoga v4 listener has quit with error:", v4err)
 		case v6err := <-v6listenquit:
-- 
2.43.0


From 855d6726769a8a45ee0ebd07de123c7e08c64647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:55 +0000
Subject: [PATCH 40/78] fix: the badpacket status for a bad data frame carries
 the session of the frame

---
 saratoga/saratoga.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/saratoga/saratoga.go b/saratoga/saratoga.go
index faf1b06..713d163 100644
--- a/saratoga/saratoga.go
+++ b/saratoga/saratoga.go
@@ -289,17 +289,18 @@ func listen(g *gocui.Gui, conn *net.UDPConn, rx chan interface{}, tx chan interf
 			var rxerr error
 			sarwin.MsgPrintln(g, "white_black", "Data frame length is:", len(framebuf))
 			if rxerr = d.Decode(framebuf); rxerr != nil {
-				// Bad Packet send back a Status to the sender with current offset and session
+				// Bad Packet send back a Status to the sender with session
+				session := binary.BigEndian.Uint32(framebuf[4:8])
 				var st status.Status
 				stheader := "descriptor=" + sarflags.GetStr(header, "descriptor") +
 					",metadatarecvd=no,allholes=yes,reqholes=requested,errcode=badpacket"
-				sinfo := status.Sinfo{Session: d.Session, Progress: d.Offset, Inrespto: 0, Holes: nil}
+				sinfo := status.Sinfo{Session: session, Progress: 0, Inrespto: 0, Holes: nil}
 				if st.New(stheader, &sinfo) != nil {
 					sarwin.ErrPrintln(g, "red_black", "Cannot create badpacket status")
 					continue
 				}
 				sarwin.ErrPrintln(g, "red_black", "Bad Data:", rxerr, " from ",
-					sarnet.UDPinfo(remoteAddr), " session ", d.Session)
+					sarnet.UDPinfo(remoteAddr), " session ", session)
 				// Send a badpacket status back to the sender
 				tx <- st.Val(remoteAddr)
 				continue
-- 
2.43.0


From fa283e110c4281d7bfcf692215c7f8570984c207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:56 +0000
Subject: [PATCH 41/78] fix: a bad frame with descriptor d128 gets its
 badpacket status

---
 saratoga/saratoga.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/saratoga/saratoga.go b/saratoga/saratoga.go
index 713d163..c648714 100644
--- a/saratoga/saratoga.go
+++ b/saratoga/saratoga.go
@@ -159,6 +159,14 @@ func starxhandler(g *gocui.Gui, s status.Status, conn *net.UDPConn, remoteAddr *
 }
 */
 
+// The descriptor for a status in answer to a frame with this header. We cannot encode a d128 status
+func stdescriptor(header uint32) string {
+	if desc := sarflags.GetStr(header, "descriptor"); desc != "d128" {
+		return desc
+	}
+	return "d64"
+}
+
 // Listen -- Go routine for recieving IPv4 & IPv6 for incoming frames and shunt them off to the
 // correct frame handlers
 // incoming frames are via rx channel interface,
@@ -292,7 +300,7 @@ func listen(g *gocui.Gui, conn *net.UDPConn, rx chan interface{}, tx chan interf
 				// Bad Packet send back a Status to the sender with session
 				session := binary.BigEndian.Uint32(framebuf[4:8])
 				var st status.Status
-				stheader := "descriptor=" + sarflags.GetStr(header, "descriptor") +
+				stheader := "descriptor=" + stdescriptor(header) +
 					",metadatarecvd=no,allholes=yes,reqholes=requested,errcode=badpacket"
 				sinfo := status.Sinfo{Session: session, Progress: 0, Inrespto: 0, Holes: nil}
 				if st.New(stheader, &sinfo) != nil {
@@ -335,7 +343,7 @@ func listen(g *gocui.Gui, conn *net.UDPConn, rx chan interface{}, tx chan interf
 				session := binary.BigEndian.Uint32(framebuf[4:8])
 				var st status.Status
 				// Bad Packet send back a Status to the client
-				stheader := "descriptor=" + sarflags.GetStr(header, "descriptor") +
+				stheader := "descriptor=" + stdescriptor(header) +
 					",metadatarecvd=no,allholes=yes,reqholes=requested,errcode=badpacket"
 				sinfo := status.Sinfo{Session: session, Progress: 0, Inrespto: 0, Holes: nil}
 				if st.New(stheader, &sinfo) != nil {
@@ -379,7 +387,7 @@ func listen(g *gocui.Gui, conn *net.UDPConn, rx chan interface{}, tx chan interf
 				session := binary.BigEndian.Uint32(framebuf[4:8])
 				var st status.Status
 				// Bad Packet send back a Status to the sender
-				stheader := "descriptor=" + sarflags.GetStr(header, "descriptor") +
+				stheader := "descriptor=" + stdescriptor(header) +
 					",metadatarecvd=no,allholes=yes,reqholes=requested,errcode=badpacket"
 				sinfo := status.Sinfo{Session: session, Progress: 0, Inrespto: 0, Holes: nil}
 				if st.New(stheader, &sinfo) != nil {
-- 
2.43.0


From 6294accfac2d2283d81cc5c2bc0e3615b1131417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:38 +0000
Subject: [PATCH 42/78] fix: sarwin.Lookup returns the transfer in the list,
 not a copy of it

---
 sarwin/sarwin.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 8589490..9c38485 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -896,12 +896,13 @@ var Transfers = []Transfer{}
 
 // Lookup - Return a pointer to the transfer if we find it in Transfers, nil otherwise
 func Lookup(direction bool, session uint32, peer string) *Transfer {
-	for _, t := range Transfers {
+	for i := range Transfers {
+		t := &Transfers[i]
 		// Check if direction (Initiator or Responder), session # and IP address match in our current
 		// list of transfers (if so then return a pointer to it)
 
 		if direction == t.Direction && session == t.Session && t.Peer.String() == peer {
-			return &t
+			return t
 		}
 	}
 	return nil
-- 
2.43.0


From d55f94108ae51feb7e12f24108056b6286686c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:38 +0000
Subject: [PATCH 43/78] fix: removing a transfer removes that one and not the
 last of the list

---
 sarwin/sarwin.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 9c38485..ccedb8d 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1217,9 +1217,14 @@ func (t *Transfer) Change(g *gocui.Gui, m metadata.MetaData) error {
 func (t *Transfer) Remove() error {
 	Trmu.Lock()
 	defer Trmu.Unlock()
+	return t.remove()
+}
 
+// remove - Remove a Transfer from the Transfers, Trmu must be locked
+func (t *Transfer) remove() error {
 	for i := len(Transfers) - 1; i >= 0; i-- {
-		if Lookup(t.Direction, t.Session, t.Peer.String()) != nil {
+		if t.Direction == Transfers[i].Direction && t.Session == Transfers[i].Session &&
+			t.Peer.String() == Transfers[i].Peer.String() {
 			Transfers = append(Transfers[:i], Transfers[i+1:]...)
 			return nil
 		}
-- 
2.43.0


From c7f0f7177d368e3887bd0b5182d7865c95ffc409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:38 +0000
Subject: [PATCH 44/78] fix: two transfers of the same file to the same peer
 cannot be added at the same time

---
 sarwin/sarwin.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index ccedb8d..17a1cc6 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -921,13 +921,16 @@ func Match(addr string, session uint32) *Transfer {
 // CNew - Add a new transfer to the Transfers list
 func NewInitiator(g *gocui.Gui, ttype string, peer *net.UDPAddr, fname string, c *sarflags.Cliflags) (*Transfer, error) {
 	// screen.Fprintln(g,  "red_black", "Addtran for ", ip.String(), " ", fname, " ", flags)
+	// Lock it as we are going to add a new transfer slice
+	Trmu.Lock()
+	defer Trmu.Unlock()
 	for _, i := range Transfers { // Don't add duplicates (ie dont try act on same fname)
 		// Make sure we have connections to all the current Transfers
 		if i.Conn == nil {
 			emsg := "No connection exists to peer: " + peer.String()
 			ErrPrintln(g, "red_black", emsg)
 			// Remove the transfer as we have no connection to a peer
-			if err := i.Remove(); err != nil {
+			if err := i.remove(); err != nil {
 				ErrPrintln(g, "red_black", "Can't remove transfer of", i.Session)
 			}
 			return nil, errors.New(emsg)
@@ -950,9 +953,6 @@ func NewInitiator(g *gocui.Gui, ttype string, peer *net.UDPAddr, fname string, c
 
 	// OK lets create the transfer
 
-	// Lock it as we are going to add a new transfer slice
-	Trmu.Lock()
-	defer Trmu.Unlock()
 	t := new(Transfer)
 	t.Direction = Initiator
 	t.Ttype = ttype
-- 
2.43.0


From 106ea62954e8cdaba53effecd2ea557c29d019f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:39 +0000
Subject: [PATCH 45/78] fix: no transfer is added when the local file exists
 for a get or take, is missing for a put, or there is no connection

---
 sarwin/sarwin.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 17a1cc6..f5e437b 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -935,13 +935,6 @@ func NewInitiator(g *gocui.Gui, ttype string, peer *net.UDPAddr, fname string, c
 			}
 			return nil, errors.New(emsg)
 		}
-		// If the file currently exists on our system and we try to "get" it then we won;t allow that
-		// We cant overwrite an existing file on our system
-		if fileio.FileExists(fname) && (ttype == "get" || ttype == "getdelete" || ttype == "getdir") {
-			emsg := fmt.Sprintf("File %s already exists, cannot overwrite", fname)
-			ErrPrintln(g, "red_black", emsg)
-			return nil, errors.New(emsg)
-		}
 		// We do not allow duplicate transfers of a file to the same peer
 		if fname == i.Filename && peer.String() == i.Peer.String() {
 			emsg := fmt.Sprintf("Initiator %s to %s currently in progress",
@@ -951,6 +944,13 @@ func NewInitiator(g *gocui.Gui, ttype string, peer *net.UDPAddr, fname string, c
 		}
 	}
 
+	// If the file currently exists on our system and we try to "get" it then we won;t allow that
+	// We cant overwrite an existing file on our system
+	if fileio.FileExists(fname) && (ttype == "get" || ttype == "take" || ttype == "getdir") {
+		emsg := fmt.Sprintf("File %s already exists, cannot overwrite", fname)
+		ErrPrintln(g, "red_black", emsg)
+		return nil, errors.New(emsg)
+	}
 	// OK lets create the transfer
 
 	t := new(Transfer)
@@ -964,12 +964,15 @@ func NewInitiator(g *gocui.Gui, ttype string, peer *net.UDPAddr, fname string, c
 	// Dial the peer to create the connection
 	if t.Conn, err = net.DialUDP("udp", nil, peer); err != nil {
 		ErrPrintln(g, "red_black", "Cannot dial peer "+peer.String()+" "+err.Error())
+		return nil, err
 	}
 
 	// Open up the local for i/o
 	t.Filename = fname
 	if t.Fp, err = fileio.FileOpen(t.Filename, t.Ttype); err != nil {
 		ErrPrintln(g, "red_black", err)
+		t.Conn.Close()
+		return nil, err
 	}
 	if t.Filemeta, err = fileio.FileMeta(fname); err != nil {
 		ErrPrintln(g, "red_black", err)
-- 
2.43.0


From 1d5f5abadf6805a72f2d4cf4abba5c779e6b253d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:39 +0000
Subject: [PATCH 46/78] fix: txwilling on and off set yes and no, there are no
 such flags as on and off

---
 sarwin/sarwin.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index f5e437b..a9482e4 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -2429,10 +2429,10 @@ func cmdTxwilling(g *gocui.Gui, args []string) {
 			MsgPrintln(g, "green_black", prusage("txwilling"))
 			return
 		case "on":
-			sarflags.Cliflag.Global["txwilling"] = "on"
+			sarflags.Cliflag.Global["txwilling"] = "yes"
 			return
 		case "off":
-			sarflags.Cliflag.Global["txwilling"] = "off"
+			sarflags.Cliflag.Global["txwilling"] = "no"
 			return
 		case "capable":
 			sarflags.Cliflag.Global["txwilling"] = "capable"
-- 
2.43.0


From 304e91e40109bab49b960ee5210b8289773d869a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:40 +0000
Subject: [PATCH 47/78] fix: a command line of just spaces does not panic

---
 sarwin/sarwin.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index a9482e4..1ef98d9 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -2514,6 +2514,9 @@ func Run(g *gocui.Gui, name string) bool {
 	// Get rid of leading and trailing whitespace
 	s := strings.TrimSpace(name)
 	vals := strings.Fields(s)
+	if len(vals) == 0 { // Handle just spaces
+		return true
+	}
 	// Lookup the cmd and index func to run via cmdhandler map
 	for key := range sarflags.Commands {
 		if key == vals[0] {
-- 
2.43.0


From 2d6c36523cda540f409c647e9809a9c53310e174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:40 +0000
Subject: [PATCH 48/78] fix: beacon off also stops the multicast beacons

---
 sarwin/sarwin.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 1ef98d9..27b9a54 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1322,6 +1322,8 @@ func cmdBeacon(g *gocui.Gui, args []string) {
 			MsgPrintln(g, "green_black", "Beacons Disabled")
 			// remove and disable all beacons
 			clibeacon.hosts = nil
+			clibeacon.v4mcast = false
+			clibeacon.v6mcast = false
 			return
 		case "v4": // beacon v4
 			// V4 Multicast
-- 
2.43.0


From 94ce0dc5d8975ad28842f6896a4af06674672914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:40 +0000
Subject: [PATCH 49/78] fix: beacon with a list of addresses sends to the first
 of them too

---
 sarwin/sarwin.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 27b9a54..77d7f10 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1358,8 +1358,11 @@ func cmdBeacon(g *gocui.Gui, args []string) {
 			return
 		}
 	}
-	for i := 2; i < len(args); i++ {
+	for i := 1; i < len(args); i++ {
 		if args[1] == "off" {
+			if i == 1 {
+				continue
+			}
 			if addr, err := sarnet.UDPAddress(args[i]); err == nil {
 				clibeacon.hosts = sarnet.RemoveUDPAddrValue(clibeacon.hosts, addr)
 				continue
-- 
2.43.0


From 83567b94b6e2d62cf35f33c71abf4891541ae890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:44 +0000
Subject: [PATCH 50/78] fix: WriteStatus splits the holes over the status
 frames, each frame had all of them

---
 sarwin/sarwin.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 77d7f10..1e21367 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1160,8 +1160,7 @@ func (t *Transfer) WriteStatus(g *gocui.Gui, sflags string) string {
 		framecnt = 1
 		flags = sarflags.ReplaceFlag(sflags, "allholes", "yes")
 	} else {
-		h := t.Curfills.Getholes()
-		framecnt = len(h)/maxholes + 1
+		framecnt = (lasthole + maxholes - 1) / maxholes
 		flags = sarflags.ReplaceFlag(sflags, "allholes", "no")
 	}
 
@@ -1174,8 +1173,7 @@ func (t *Transfer) WriteStatus(g *gocui.Gui, sflags string) string {
 		}
 
 		var st status.Status
-		h := t.Curfills.Getholes()
-		sinfo := status.Sinfo{Session: t.Session, Progress: t.Progress, Inrespto: t.Inrespto, Holes: h}
+		sinfo := status.Sinfo{Session: t.Session, Progress: t.Progress, Inrespto: t.Inrespto, Holes: h[starthole:endhole]}
 		if st.New(flags, &sinfo) != nil {
 			ErrPrintln(g, "red_black", "Cannot asemble status")
 			return "badstatus"
-- 
2.43.0


From 3f878d7d60737d46808d0d1d56e2ca2732e036c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:44 +0000
Subject: [PATCH 51/78] fix: WriteStatus does not panic on flags without a
 descriptor, and leaves room for the timestamp

---
 sarwin/sarwin.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 1e21367..3537f82 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -810,7 +810,8 @@ func maxpaylen(flags string) int {
 
 // Work out the maximum payload in status.Status frame given flags
 func stpaylen(flags string) int {
-	var hsize int
+	hsize := 4 // A status without a descriptor flag is d16
+	tstamp := false
 	var plen int
 
 	plen = sarflags.Mtu() - 60 - 8 // 60 for IP header, 8 for UDP header
@@ -821,6 +822,13 @@ func stpaylen(flags string) int {
 	flag := strings.Split(flags, ",") // The name=val of the flag
 	for fl := range flag {
 		f := strings.Split(flag[fl], "=") // f[0]=name f[1]=val
+		if sarflags.GoodT(f[0]) {         // A timestamp type
+			tstamp = true
+			continue
+		}
+		if len(f) != 2 {
+			return 0
+		}
 		switch f[0] {
 		case "descriptor":
 			switch f[1] {
@@ -837,11 +845,14 @@ func stpaylen(flags string) int {
 			}
 		case "reqtstamp":
 			if f[1] == "yes" {
-				plen -= 16
+				tstamp = true
 			}
 		default:
 		}
 	}
+	if tstamp {
+		plen -= 16
+	}
 	plen -= hsize       // For Progress & Inrespto
 	return plen / hsize // Max holes we can now have in the frame
 }
@@ -1146,6 +1157,10 @@ func (t *Transfer) WriteStatus(g *gocui.Gui, sflags string) string {
 	}
 	MsgPrintln(g, "cyan_black", "Responder Assemble & Send status to ", t.Peer.String())
 	var maxholes = stpaylen(sflags) // Work out maximum # holes we can put in a single status frame
+	if maxholes < 1 {
+		ErrPrintln(g, "red_black", "No holes can be put in a status with flags ", sflags)
+		return "badstatus"
+	}
 
 	errf := sarflags.FlagValue(sflags, "errcode")
 	var lasthole int
-- 
2.43.0


From 314df218ca77c17e3256293bdb0195e699227bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:19 +0000
Subject: [PATCH 52/78] fix: a localinterp timestamp has no seconds left over
 from an earlier time

---
 timestamp/timestamp.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/timestamp/timestamp.go b/timestamp/timestamp.go
index 92ebdda..c998773 100644
--- a/timestamp/timestamp.go
+++ b/timestamp/timestamp.go
@@ -78,6 +78,8 @@ func (t *Timestamp) New(flag string, ts time.Time) error {
 		t.nsecs = 0
 		t.local = ""
 	default: // localinterp Dont know this timestamp type so whatever is in flag is used
+		t.secs = 0
+		t.nsecs = 0
 		t.local = flag
 		t.ttype = flag
 	}
-- 
2.43.0


From 75276e96b74019b28d44b06ed36838d44b0c9c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:22 +0000
Subject: [PATCH 53/78] fix: a config value of the wrong type is reported as an
 error instead of a panic

---
 sarflags/sarflags.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/sarflags/sarflags.go b/sarflags/sarflags.go
index 74a9c5e..a4b766e 100644
--- a/sarflags/sarflags.go
+++ b/sarflags/sarflags.go
@@ -318,8 +318,14 @@ func getmaxdesc() (desc string, err error) {
 
 // Read  in the JSON Config data
 // Set values to the filled out Cliflags structure in *Cliflags
-func (c *Cliflags) ReadConfig(fname string) error {
-	var err error
+func (c *Cliflags) ReadConfig(fname string) (err error) {
+
+	// A value of the wrong type in the config is an error, not a panic
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("invalid value in saratoga config file %s: %v", fname, r)
+		}
+	}()
 
 	// var cmu sync.Mutex
 	Flags = make(map[string]Flagtype)             // Setup the Flags global map
@@ -334,13 +340,13 @@ func (c *Cliflags) ReadConfig(fname string) error {
 
 	var confdata []byte
 	if confdata, err = os.ReadFile(fname); err != nil {
-		fmt.Println("Cannot open the saratoga config file", os.Args[1], ":", err)
+		fmt.Println("Cannot open the saratoga config file", fname, ":", err)
 		return err
 	}
 
 	var sarconfdata map[string]interface{}
 	if err = json.Unmarshal([]byte(confdata), &sarconfdata); err != nil {
-		fmt.Println("Cannot Unmarshal json from saratoga config file", os.Args[1], ":", err)
+		fmt.Println("Cannot Unmarshal json from saratoga config file", fname, ":", err)
 		return err
 	}
 	// Lock them up while we are changing the values
-- 
2.43.0


From d3a5f80ca8a55e16a99bfab5d703d233090cbf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:51 +0000
Subject: [PATCH 54/78] fix: metadata without a checksum drops the one left
 over from an earlier file

---
 metadata/metadata.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index d039d9a..2e6d450 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -176,6 +176,7 @@ func (m *MetaData) New(flags string, info interface{}) error {
 		if checksum, err = fileio.Checksum(sarflags.GetStr(m.Header, "csumtype"), fname); err != nil {
 			return err
 		}
+		m.Checksum = nil // There may be one left over from an earlier file
 		csumlen := len(checksum)
 		if csumlen > 0 {
 			m.Checksum = make([]byte, len(checksum))
@@ -232,6 +233,7 @@ func (m *MetaData) Make(header uint32, info interface{}) error {
 		if checksum, err = fileio.Checksum(csumtype, fname); err != nil {
 			return err
 		}
+		m.Checksum = nil // There may be one left over from an earlier file
 		csumlen := len(checksum)
 		if csumlen > 0 {
 			m.Checksum = make([]byte, len(checksum))
-- 
2.43.0


From 18fc5551c34098258f2d7ba813ae851c6ad91f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:46 +0000
Subject: [PATCH 55/78] fix: enter on a line that has no prompt yet does not
 panic

---
 sarwin/sarwin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 3537f82..3f9c531 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -585,7 +585,7 @@ func GetLine(g *gocui.Gui, v *gocui.View) error {
 		line, _ := v.Line(cy)
 
 		command := strings.SplitN(line, ":", 2)
-		if command[1] == "" { // We have just hit enter - do nothing
+		if len(command) < 2 || command[1] == "" { // We have just hit enter - do nothing
 			return nil
 		}
 		// Save the command into history
-- 
2.43.0


From 7ce4ad6cffff54605bfbe40e8dd5cc20d5aa87fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:46 +0000
Subject: [PATCH 56/78] fix: the settings are copied for a transfer under their
 lock, a command changing them at the same time crashed

---
 sarflags/sarflags.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sarflags/sarflags.go b/sarflags/sarflags.go
index a4b766e..5e73d7a 100644
--- a/sarflags/sarflags.go
+++ b/sarflags/sarflags.go
@@ -635,6 +635,8 @@ func ReplaceFlag(flags, value, option string) string {
 
 // CopyCliflags - copy from source to desination the Clieflags structure
 func (s *Cliflags) CopyCliflags() (*Cliflags, error) {
+	Climu.Lock()
+	defer Climu.Unlock()
 	d := new(Cliflags)
 	d.V4Multicast = s.V4Multicast
 	d.V6Multicast = s.V6Multicast
-- 
2.43.0


From a92a9ac16b18c47653126361a808d016889c7ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:46 +0000
Subject: [PATCH 57/78] fix: a pointer to a transfer stays on it when another
 one is removed, and the list is read under its lock

---
 sarwin/sarwin.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 3f9c531..f472798 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -907,6 +907,8 @@ var Transfers = []Transfer{}
 
 // Lookup - Return a pointer to the transfer if we find it in Transfers, nil otherwise
 func Lookup(direction bool, session uint32, peer string) *Transfer {
+	Trmu.Lock()
+	defer Trmu.Unlock()
 	for i := range Transfers {
 		t := &Transfers[i]
 		// Check if direction (Initiator or Responder), session # and IP address match in our current
@@ -921,6 +923,8 @@ func Lookup(direction bool, session uint32, peer string) *Transfer {
 
 // Lookup a host & session and return transfer pointer or nil if it does not exist
 func Match(addr string, session uint32) *Transfer {
+	Trmu.Lock()
+	defer Trmu.Unlock()
 	for i := len(Transfers) - 1; i >= 0; i-- {
 		if addr == Transfers[i].Conn.RemoteAddr().String() && session == Transfers[i].Session {
 			return &Transfers[i]
@@ -1104,6 +1108,8 @@ func NewResponder(g *gocui.Gui, r request.Request, peer string) error {
 func Info(g *gocui.Gui, ttype string) {
 	var tinfo []Transfer
 
+	Trmu.Lock()
+	defer Trmu.Unlock()
 	for i := range Transfers {
 		if ttype == "" || Transfers[i].Ttype == ttype {
 			tinfo = append(tinfo, Transfers[i])
@@ -1241,7 +1247,8 @@ func (t *Transfer) remove() error {
 	for i := len(Transfers) - 1; i >= 0; i-- {
 		if t.Direction == Transfers[i].Direction && t.Session == Transfers[i].Session &&
 			t.Peer.String() == Transfers[i].Peer.String() {
-			Transfers = append(Transfers[:i], Transfers[i+1:]...)
+			// Into a new slice as a pointer to a transfer must not become one to the next
+			Transfers = append(append([]Transfer{}, Transfers[:i]...), Transfers[i+1:]...)
 			return nil
 		}
 	}
-- 
2.43.0


From 48330d42ae99a99037ebc6063e9853ac5a312fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:46 +0000
Subject: [PATCH 58/78] fix: getdir makes a directory with permissions, it
 could not enter the one it made

---
 fileio/fileio.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fileio/fileio.go b/fileio/fileio.go
index a937f9f..fbb643e 100644
--- a/fileio/fileio.go
+++ b/fileio/fileio.go
@@ -56,7 +56,7 @@ func FileOpen(fname string, ttype string) (*os.File, error) {
 		// Create the Directory
 		// BUT THEN WHAT DO WE DO!!!!
 		// LOTS CODE TO WRITE HERE
-		err = os.Mkdir(fullname, os.ModeDir)
+		err = os.Mkdir(fullname, 0777)
 		if err == nil {
 			if err = os.Chdir(fullname); err != nil {
 				return nil, err
-- 
2.43.0


From 1db73daa740596cd6c0609349c03b99769e2f00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:08 +0000
Subject: [PATCH 59/78] fix: clear does not crash when the window is written at
 the same time

---
 sarwin/sarwin.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index f472798..2ffa7a1 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -105,17 +105,21 @@ type Cmdinfo struct {
 // Clear a window
 func Clearwin(g *gocui.Gui, win string) {
 
-	var newview *gocui.View
+	// In the main loop as a view cannot be cleared while it is being written or drawn
+	g.Update(func(g *gocui.Gui) error {
+		var newview *gocui.View
 
-	curview := g.CurrentView()
-	curname := curview.Name()
-	// x, y := curview.Cursor()
-	if win == "msg" || win == "err" || win == "packet" {
-		newview, _ = g.SetCurrentView(win)
-		newview.Clear()
-		newview.SetCursor(0, 0)
-		g.SetCurrentView(curname)
-	}
+		curview := g.CurrentView()
+		curname := curview.Name()
+		// x, y := curview.Cursor()
+		if win == "msg" || win == "err" || win == "packet" {
+			newview, _ = g.SetCurrentView(win)
+			newview.Clear()
+			newview.SetCursor(0, 0)
+			g.SetCurrentView(curname)
+		}
+		return nil
+	})
 }
 
 // Cinfo - Information held on the cmd view
-- 
2.43.0


From 920b83676802b7ddb7525558aa51c836e12dcaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:27 +0000
Subject: [PATCH 60/78] fix: a status without an errcode flag is a success and
 has its holes

---
 sarwin/sarwin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 2ffa7a1..6ca87de 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1175,7 +1175,7 @@ func (t *Transfer) WriteStatus(g *gocui.Gui, sflags string) string {
 	errf := sarflags.FlagValue(sflags, "errcode")
 	var lasthole int
 	h := t.Curfills.Getholes()
-	if errf == "success" {
+	if errf == "success" || errf == "" { // No errcode flag is a success in the frame
 		lasthole = len(h) // How many holes do we have
 	}
 
-- 
2.43.0


From 93538c0e24aff281532111e1de00c7e9f0f81edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:08 +0000
Subject: [PATCH 61/78] fix: showing the timeouts does not change the
 datacounter

---
 sarwin/sarwin.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 6ca87de..fbd85b8 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -2226,7 +2226,6 @@ func cmdTimeout(g *gocui.Gui, args []string) {
 			MsgPrintln(g, "green_black", "status:", sarflags.Cliflag.Timeout.Status, " sec")
 		}
 		if sarflags.Cliflag.Timeout.Datacounter == 0 {
-			sarflags.Cliflag.Timeout.Datacounter = 100
 			MsgPrintln(g, "green_black", "Data Counter every 100 frames")
 		} else {
 			MsgPrintln(g, "green_black", "datacounter:", sarflags.Cliflag.Timeout.Datacounter, " frames")
@@ -2262,7 +2261,6 @@ func cmdTimeout(g *gocui.Gui, args []string) {
 			}
 		case "datacounter":
 			if sarflags.Cliflag.Timeout.Datacounter == 0 {
-				sarflags.Cliflag.Timeout.Datacounter = 100
 				MsgPrintln(g, "green_black", "datacounter:Never")
 			} else {
 				MsgPrintln(g, "green_black", "datacounter:", sarflags.Cliflag.Timeout.Datacounter, " frames")
-- 
2.43.0


From d2e9c5ffacc21e4179033929626b61ec44d90ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:36 +0000
Subject: [PATCH 62/78] fix: timeout metadata shows the metadata timeout

---
 sarwin/sarwin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index fbd85b8..cc8137f 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -2248,7 +2248,7 @@ func cmdTimeout(g *gocui.Gui, args []string) {
 				MsgPrintln(g, "green_black", "request:", sarflags.Cliflag.Timeout.Request, " sec")
 			}
 		case "metadata":
-			if sarflags.Cliflag.Timeout.Request == 0 {
+			if sarflags.Cliflag.Timeout.Metadata == 0 {
 				MsgPrintln(g, "green_black", "metadata:No Timeout")
 			} else {
 				MsgPrintln(g, "green_black", "metadata:", sarflags.Cliflag.Timeout.Metadata, " sec")
-- 
2.43.0


From 492fcda01d5560312ecce74cf3ec2c47a608539e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:36 +0000
Subject: [PATCH 63/78] fix: take, give, delete and tran list the take, give
 and delete transfers

---
 saratoga/saratoga.json | 2 +-
 sarwin/sarwin.go       | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/saratoga/saratoga.json b/saratoga/saratoga.json
index 9e8fc3f..b15c1b6 100644
--- a/saratoga/saratoga.json
+++ b/saratoga/saratoga.json
@@ -153,7 +153,7 @@
 			"help" : "show current or set to use local or universal time"
 		},
 		"tran" : {
-			"usage" : "tran [get|take|getdir|put|give|putblind|rm|rmdir]",
+			"usage" : "tran [get|take|getdir|put|give|putblind|delete]",
 			"help" : "list current active transfers of specific type or all"
 		},
 		"txwilling" : {
diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index cc8137f..2b28885 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -862,7 +862,7 @@ func stpaylen(flags string) int {
 }
 
 // Ttypes - Transfer types
-var Ttypes = []string{"get", "getrm", "getdir", "put", "putblind", "putrm", "rm", "rmdir"}
+var Ttypes = []string{"get", "take", "getdir", "put", "putblind", "give", "delete"}
 
 // Transfer direction we are an initiator of a transfer or a respondant to a request for a transfer
 const Initiator bool = true
@@ -1667,7 +1667,7 @@ func cmdGetdir(g *gocui.Gui, args []string) {
 func cmdTake(g *gocui.Gui, args []string) {
 	switch len(args) {
 	case 1:
-		Info(g, "getrm")
+		Info(g, "take")
 		return
 	case 2:
 		if args[1] == "?" {
@@ -2010,7 +2010,7 @@ func cmdGive(g *gocui.Gui, args []string) {
 
 	switch len(args) {
 	case 1:
-		Info(g, "putrm")
+		Info(g, "give")
 		return
 	case 2:
 		if args[1] == "?" {
@@ -2079,7 +2079,7 @@ func cmdDelete(g *gocui.Gui, args []string) {
 
 	switch len(args) {
 	case 1:
-		Info(g, "rm")
+		Info(g, "delete")
 		return
 	case 2:
 		if args[1] == "?" {
-- 
2.43.0


From b963f507ebdaa3b6f80e89c40ab3c64392ad32f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:37 +0000
Subject: [PATCH 64/78] fix: put and give show their own help and usage when
 they are refused

---
 sarwin/sarwin.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 2b28885..efa5a06 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1954,8 +1954,8 @@ func cmdPut(g *gocui.Gui, args []string) {
 				close(errflag)
 				return
 			}
-			MsgPrintln(g, "magenta_black", prhelp("getrm"))
-			ErrPrintln(g, "green_black", prusage("getrm"))
+			MsgPrintln(g, "magenta_black", prhelp("put"))
+			ErrPrintln(g, "green_black", prusage("put"))
 			return
 		}
 		ErrPrintln(g, "green_black", "Invalid IP Address:", args[1])
@@ -2037,11 +2037,13 @@ func cmdGive(g *gocui.Gui, args []string) {
 				MsgPrintln(g, "red_black", "Give and remove (ADD MORE CODE  HERE!!!!) local file:", t.Print())
 				return
 			}
-			ErrPrintln(g, "green_black", "Invalid IP Address:", args[1])
+			MsgPrintln(g, "magenta_black", prhelp("give"))
+			ErrPrintln(g, "green_black", prusage("give"))
+			return
 		}
-		ErrPrintln(g, "red_black", prusage("putblind"))
+		ErrPrintln(g, "green_black", "Invalid IP Address:", args[1])
 	}
-	ErrPrintln(g, "red_black", prusage("putrm"))
+	ErrPrintln(g, "red_black", prusage("give"))
 }
 
 func cmdReqtstamp(g *gocui.Gui, args []string) {
-- 
2.43.0


From b640793fafca8869d2732c3546092bb77e87b910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:37 +0000
Subject: [PATCH 65/78] fix: a refused get, timeout or peers command says so

---
 sarwin/sarwin.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index efa5a06..d6bde49 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1631,6 +1631,8 @@ func cmdGet(g *gocui.Gui, args []string) {
 			if _, err := NewInitiator(g, "get", udpad, args[2], sarflags.Cliflag); err != nil {
 				return
 			}
+		} else {
+			ErrPrintln(g, "green_black", "Invalid IP Address:", args[1])
 		}
 		return
 	}
@@ -1917,10 +1919,9 @@ func cmdPeers(g *gocui.Gui, args []string) {
 			MsgPrintln(g, "green_black", prusage("peers"))
 			return
 		}
-	default:
-		MsgPrintln(g, "magenta_black", prhelp("peers"))
-		ErrPrintln(g, "red_black", prusage("peers"))
 	}
+	MsgPrintln(g, "magenta_black", prhelp("peers"))
+	ErrPrintln(g, "red_black", prusage("peers"))
 }
 
 // Initiator _put_
@@ -2338,6 +2339,8 @@ func cmdTimeout(g *gocui.Gui, args []string) {
 			case "transfer":
 				sarflags.Cliflag.Timeout.Transfer = 60
 				MsgPrintln(g, "green_black", "transfer:", sarflags.Cliflag.Timeout.Transfer, " sec")
+			default:
+				ErrPrintln(g, "red_black", prusage("timeout"))
 			}
 			return
 		}
-- 
2.43.0


From c79569c8acd75cf300e5806203048ec8d63bba7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:37 +0000
Subject: [PATCH 66/78] fix: ls ? shows the help of ls

---
 sarwin/sarwin.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index d6bde49..a458590 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1828,12 +1828,7 @@ func cmdHome(g *gocui.Gui, args []string) {
 }
 
 func cmdLs(g *gocui.Gui, args []string) {
-	if len(args) != 0 {
-		ErrPrintln(g, "red_bblack", prusage("ls"))
-		return
-	}
-	switch args[1] {
-	case "?":
+	if len(args) == 2 && args[1] == "?" {
 		MsgPrintln(g, "magenta_black", prhelp("ls"))
 		MsgPrintln(g, "green_black", prusage("ls"))
 		return
-- 
2.43.0


From 5fcc739a03d144cd4a0d4645d53d386b63979cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:37 +0000
Subject: [PATCH 67/78] fix: peers shows a consistent copy of the peer table

---
 beacon/beacon.go |  7 +++++++
 sarwin/sarwin.go | 47 ++++++++++++++++++++++++-----------------------
 2 files changed, 31 insertions(+), 23 deletions(-)

diff --git a/beacon/beacon.go b/beacon/beacon.go
index d09a3b2..2744b32 100644
--- a/beacon/beacon.go
+++ b/beacon/beacon.go
@@ -356,6 +356,13 @@ var pmu sync.Mutex // Protect Peers
 // Peers - Slices of unique Peer information learned from beacons
 var Peers []Peer
 
+// PeerList - A copy of the Peers, they may change at any time
+func PeerList() []Peer {
+	pmu.Lock()
+	defer pmu.Unlock()
+	return append([]Peer(nil), Peers...)
+}
+
 // NewPeer - Add/Change peer info from received beacon
 func NewPeer(b *Beacon, from *net.UDPAddr) bool {
 	if from == nil {
diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index a458590..c3cd710 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1840,31 +1840,32 @@ func cmdLs(g *gocui.Gui, args []string) {
 func cmdPeers(g *gocui.Gui, args []string) {
 	switch len(args) {
 	case 1:
-		if len(beacon.Peers) == 0 {
+		peers := beacon.PeerList()
+		if len(peers) == 0 {
 			MsgPrintln(g, "green_black", "No Peers")
 			return
 		}
 		// Table format
 		// Work out the max length of each field
 		var addrlen, eidlen, dcrelen, dmodlen, cantxlen, canrxlen int
-		for p := range beacon.Peers {
-			if len(beacon.Peers[p].Addr) > addrlen {
-				addrlen = len(beacon.Peers[p].Addr)
+		for p := range peers {
+			if len(peers[p].Addr) > addrlen {
+				addrlen = len(peers[p].Addr)
 			}
-			if len(beacon.Peers[p].Eid) > eidlen {
-				eidlen = len(beacon.Peers[p].Eid)
+			if len(peers[p].Eid) > eidlen {
+				eidlen = len(peers[p].Eid)
 			}
-			if len(beacon.Peers[p].Canrx) > canrxlen {
-				canrxlen = len(beacon.Peers[p].Canrx)
+			if len(peers[p].Canrx) > canrxlen {
+				canrxlen = len(peers[p].Canrx)
 			}
-			if len(beacon.Peers[p].Cantx) > cantxlen {
-				cantxlen = len(beacon.Peers[p].Cantx)
+			if len(peers[p].Cantx) > cantxlen {
+				cantxlen = len(peers[p].Cantx)
 			}
-			if len(beacon.Peers[p].Created.Print()) > dcrelen {
-				dcrelen = len(beacon.Peers[p].Created.Print())
+			if len(peers[p].Created.Print()) > dcrelen {
+				dcrelen = len(peers[p].Created.Print())
 			}
-			if len(beacon.Peers[p].Created.Print()) > dmodlen {
-				dmodlen = len(beacon.Peers[p].Updated.Print())
+			if len(peers[p].Updated.Print()) > dmodlen {
+				dmodlen = len(peers[p].Updated.Print())
 			}
 		}
 		if eidlen < 3 {
@@ -1886,15 +1887,15 @@ func cmdPeers(g *gocui.Gui, args []string) {
 		sfmt := fmt.Sprintf("|%%%ds|%%6s|%%%ds|%%3s|%%%ds|%%%ds|%%%ds|%%%ds|\n",
 			addrlen, eidlen, canrxlen, cantxlen, dcrelen, dmodlen)
 		var sslice sort.StringSlice
-		for key := range beacon.Peers {
-			pinfo := fmt.Sprintf(sfmt, beacon.Peers[key].Addr,
-				strconv.Itoa(int(beacon.Peers[key].Freespace/1024/1024)),
-				beacon.Peers[key].Eid,
-				beacon.Peers[key].Maxdesc,
-				beacon.Peers[key].Canrx,
-				beacon.Peers[key].Cantx,
-				beacon.Peers[key].Created.Print(),
-				beacon.Peers[key].Updated.Print())
+		for key := range peers {
+			pinfo := fmt.Sprintf(sfmt, peers[key].Addr,
+				strconv.Itoa(int(peers[key].Freespace/1024/1024)),
+				peers[key].Eid,
+				peers[key].Maxdesc,
+				peers[key].Canrx,
+				peers[key].Cantx,
+				peers[key].Created.Print(),
+				peers[key].Updated.Print())
 			sslice = append(sslice, pinfo)
 		}
 		sort.Sort(sslice)
-- 
2.43.0


From 920a1159823e3e52b56ef053463213847a9c5f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:51 +0000
Subject: [PATCH 68/78] fix: rmtran names the session of the transfer it did
 not find

---
 sarwin/sarwin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index c3cd710..b3b4697 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -2136,7 +2136,7 @@ func cmdRmtran(g *gocui.Gui, args []string) {
 				}
 				return
 			}
-			MsgPrintln(g, "red_black", "No such transfer:", ttype, " ", addr, " ", args[2])
+			MsgPrintln(g, "red_black", "No such transfer:", ttype, " ", addr, " ", args[3])
 		}
 	}
 	ErrPrintln(g, "red_black", prusage("rmtran"))
-- 
2.43.0


From b096210f042efab1e357c7a71fc2f44b7f142f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:24 +0000
Subject: [PATCH 69/78] fix: the cursor of the command line counts characters,
 not bytes

---
 sarwin/sarwin.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index b3b4697..a34c996 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -16,6 +16,7 @@ import (
 	"strings"
 	"sync"
 	"time"
+	"unicode/utf8"
 
 	"github.com/jroimartin/gocui"
 
@@ -452,8 +453,9 @@ func CursorRight(g *gocui.Gui, v *gocui.View) error {
 	case "cmd":
 		cx, cy := v.Cursor()
 		line, _ := v.Line(cy)
-		if cx >= len(line)-1 { // We are at the end of line do nothing
-			v.SetCursor(len(line), cy)
+		n := utf8.RuneCountInString(line)
+		if cx >= n-1 { // We are at the end of line do nothing
+			v.SetCursor(n, cy)
 			return nil
 		}
 		// Move forward a character
@@ -513,7 +515,7 @@ func CursorUp(g *gocui.Gui, v *gocui.View) error {
 
 // Return the length of the prompt
 func promptlen(v Cmdinfo) int {
-	return len(v.Prompt) + len(strconv.Itoa(v.Curline)) + v.Ppad
+	return utf8.RuneCountInString(v.Prompt) + len(strconv.Itoa(v.Curline)) + v.Ppad
 }
 
 // Cprompt - Command line prompt
-- 
2.43.0


From 4cc4472b36e0105a3a8b40fb3f4dce868f171f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:14 +0000
Subject: [PATCH 70/78] fix: the prompt comes back after a command line that is
 wrapped

---
 sarwin/sarwin.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index a34c996..4b96547 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -513,6 +513,17 @@ func CursorUp(g *gocui.Gui, v *gocui.View) error {
 	return nil
 }
 
+// Return how many rows the lines in the view take up when they are wrapped,
+// and how many of them the last line
+func viewrows(v *gocui.View) (rows int, last int) {
+	maxx, _ := v.Size()
+	for _, line := range v.BufferLines() {
+		last = utf8.RuneCountInString(line)/maxx + 1
+		rows += last
+	}
+	return rows, last
+}
+
 // Return the length of the prompt
 func promptlen(v Cmdinfo) int {
 	return utf8.RuneCountInString(v.Prompt) + len(strconv.Itoa(v.Curline)) + v.Ppad
@@ -528,8 +539,10 @@ func prompt(g *gocui.Gui, v *gocui.View) {
 	}
 	_, oy := v.Origin()
 	_, cy := v.Cursor()
-	// Only display it if it is on the next new line
-	if oy+cy == Cinfo.Curline {
+	_, maxy := v.Size()
+	rows, last := viewrows(v)
+	// Only display it if we are in the last line
+	if oy+cy >= rows-last {
 		if FirstPass { // Just the prompt no precedin \n as we are the first line
 			CmdPrintf(g, "yellow_black", "%s[%d]:", Cinfo.Prompt, Cinfo.Curline)
 			v.SetCursor(promptlen(Cinfo), cy)
@@ -538,13 +551,12 @@ func prompt(g *gocui.Gui, v *gocui.View) {
 		// End the last command by going to new lin \n then put up the new prompt
 		Cinfo.Curline++
 		CmdPrintf(g, "yellow_black", "\n%s[%d]:", Cinfo.Prompt, Cinfo.Curline)
-		_, cy := v.Cursor()
-		v.SetCursor(promptlen(Cinfo), cy)
-		if err := CursorDown(g, v); err != nil {
-			ErrPrintln(g, "red_black", "Cannot move to next line")
+		// It goes below the last row, the view scrolls if there is none
+		if rows-oy >= maxy {
+			v.SetCursor(promptlen(Cinfo), maxy-1)
+		} else {
+			v.SetCursor(promptlen(Cinfo), rows-oy)
 		}
-		_, cy = v.Cursor()
-		v.SetCursor(promptlen(Cinfo), cy+1)
 	}
 }
 
-- 
2.43.0


From 854e835de20b0ef692c5bc531ebee910eef64777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:14 +0000
Subject: [PATCH 71/78] fix: left, right and backspace work in a command line
 that is wrapped

---
 sarwin/sarwin.go | 46 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 39 insertions(+), 7 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 4b96547..f2f6681 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -416,12 +416,23 @@ func switchView(g *gocui.Gui, v *gocui.View) error {
 func BackSpace(g *gocui.Gui, v *gocui.View) error {
 	switch v.Name() {
 	case "cmd":
-		cx, _ := v.Cursor()
-		if cx <= promptlen(Cinfo) { // Dont move we are at the prompt
+		if linepos(v) <= promptlen(Cinfo) { // Dont move we are at the prompt
 			return nil
 		}
+		before, _ := viewrows(v)
 		// Delete rune backwards
-		v.EditDelete(true)
+		if cx, _ := v.Cursor(); cx > 0 {
+			v.EditDelete(true)
+		} else { // The line is wrapped, it is at the end of the row above
+			CursorLeft(g, v)
+			v.EditDelete(false)
+		}
+		// If that takes a row less the view scrolls back, stay in the same row
+		_, maxy := v.Size()
+		if after, _ := viewrows(v); after < before && after >= maxy {
+			cx, cy := v.Cursor()
+			v.SetCursor(cx, cy+1)
+		}
 	case "msg", "err", "packet":
 		return nil
 	}
@@ -433,9 +444,13 @@ func CursorLeft(g *gocui.Gui, v *gocui.View) error {
 	switch v.Name() {
 	case "cmd":
 		cx, cy := v.Cursor()
-		if cx <= promptlen(Cinfo) { // Dont move we are at the prompt
+		if linepos(v) <= promptlen(Cinfo) { // Dont move we are at the prompt
 			return nil
 		}
+		if cx == 0 { // The line is wrapped, move back to the end of the row above
+			maxx, _ := v.Size()
+			cx, cy = maxx, cy-1
+		}
 		// Move back a character
 		if err := v.SetCursor(cx-1, cy); err != nil {
 			return nil
@@ -453,11 +468,12 @@ func CursorRight(g *gocui.Gui, v *gocui.View) error {
 	case "cmd":
 		cx, cy := v.Cursor()
 		line, _ := v.Line(cy)
-		n := utf8.RuneCountInString(line)
-		if cx >= n-1 { // We are at the end of line do nothing
-			v.SetCursor(n, cy)
+		if linepos(v) >= utf8.RuneCountInString(line) { // We are at the end of line do nothing
 			return nil
 		}
+		if maxx, _ := v.Size(); cx == maxx-1 { // The line is wrapped, move on to the row below
+			cx, cy = -1, cy+1
+		}
 		// Move forward a character
 		if err := v.SetCursor(cx+1, cy); err != nil {
 			return nil
@@ -524,6 +540,22 @@ func viewrows(v *gocui.View) (rows int, last int) {
 	return rows, last
 }
 
+// Return the position of the cursor in its line, which may be wrapped
+func linepos(v *gocui.View) int {
+	maxx, _ := v.Size()
+	_, oy := v.Origin()
+	cx, cy := v.Cursor()
+	row := oy + cy // of its line
+	for _, line := range v.BufferLines() {
+		n := utf8.RuneCountInString(line)/maxx + 1
+		if row < n {
+			break
+		}
+		row -= n
+	}
+	return row*maxx + cx
+}
+
 // Return the length of the prompt
 func promptlen(v Cmdinfo) int {
 	return utf8.RuneCountInString(v.Prompt) + len(strconv.Itoa(v.Curline)) + v.Ppad
-- 
2.43.0


From 90f5df69be8e1dc408450ede33291f3c87edaac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:48 +0000
Subject: [PATCH 72/78] fix: what is printed one after the other appears in
 that order

---
 sarwin/sarwin.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index f2f6681..0da6e2a 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -103,11 +103,31 @@ type Cmdinfo struct {
 	Numlines int      // How many lines do we have
 }
 
+// What is to be done in the main loop, in the order it was asked for
+var (
+	updmu   sync.Mutex
+	updates []func(*gocui.Gui) error
+)
+
+// Have f done in the main loop after everything asked for before it, g.Update does not keep the order
+func update(g *gocui.Gui, f func(*gocui.Gui) error) {
+	updmu.Lock()
+	updates = append(updates, f)
+	updmu.Unlock()
+	g.Update(func(g *gocui.Gui) error {
+		updmu.Lock()
+		next := updates[0]
+		updates = updates[1:]
+		updmu.Unlock()
+		return next(g)
+	})
+}
+
 // Clear a window
 func Clearwin(g *gocui.Gui, win string) {
 
 	// In the main loop as a view cannot be cleared while it is being written or drawn
-	g.Update(func(g *gocui.Gui) error {
+	update(g, func(g *gocui.Gui) error {
 		var newview *gocui.View
 
 		curview := g.CurrentView()
@@ -308,7 +328,7 @@ func setcolour(colour string) string {
 // If colour is undefined then still print it out but in bright red to show there is an issue
 func fprintf(g *gocui.Gui, vname string, colour string, format string, args ...interface{}) {
 
-	g.Update(func(g *gocui.Gui) error {
+	update(g, func(g *gocui.Gui) error {
 		ViewMu.Lock()
 		defer ViewMu.Unlock()
 		v, err := g.View(vname)
@@ -332,7 +352,7 @@ func fprintf(g *gocui.Gui, vname string, colour string, format string, args ...i
 // If colour is undefined then still print it out but in bright red to show there is an issue
 func fprintln(g *gocui.Gui, vname string, colour string, args ...interface{}) {
 
-	g.Update(func(g *gocui.Gui) error {
+	update(g, func(g *gocui.Gui) error {
 		ViewMu.Lock()
 		defer ViewMu.Unlock()
 		v, err := g.View(vname)
-- 
2.43.0


From 2894968e7f5fb73e5c95378e92225af0e1db0646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:31 +0000
Subject: [PATCH 73/78] fix: a terminal of less than 12 rows or 16 columns
 ended the program

---
 sarwin/sarwin.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 0da6e2a..5e3f1a2 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -199,6 +199,13 @@ func Layout(g *gocui.Gui) error {
 
 	// Maximum size of x and y
 	maxx, maxy := g.Size()
+	// Every view needs room for a character, what does not fit on the terminal is not seen
+	if maxx < 16 {
+		maxx = 16
+	}
+	if maxy < 16 {
+		maxy = 16
+	}
 	// This is the command line input view -- cli inputs and return messages go here
 	if cmd, err = g.SetView("cmd", 0, maxy-(maxy/ratio)+1, maxx/2-1, maxy-1); err != nil {
 		if err != gocui.ErrUnknownView {
-- 
2.43.0


From 67b7485f7020b0e4658da25bc815da0e58ec2add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:47 +0000
Subject: [PATCH 74/78] fix: when the size of the terminal changes the cursor
 stays in the command line

---
 sarwin/sarwin.go | 44 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 5e3f1a2..4d85bf6 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -206,6 +206,15 @@ func Layout(g *gocui.Gui) error {
 	if maxy < 16 {
 		maxy = 16
 	}
+	// When it changes the cursor of the command line stays where it is in its line
+	resized := false
+	var line, pos int
+	if cmd, err = g.View("cmd"); err == nil {
+		x, y := cmd.Size()
+		if resized = x != maxx/2-2 || y != maxy/ratio-3; resized {
+			line, pos = curline(cmd), linepos(cmd)
+		}
+	}
 	// This is the command line input view -- cli inputs and return messages go here
 	if cmd, err = g.SetView("cmd", 0, maxy-(maxy/ratio)+1, maxx/2-1, maxy-1); err != nil {
 		if err != gocui.ErrUnknownView {
@@ -219,6 +228,8 @@ func Layout(g *gocui.Gui) error {
 		cmd.Overwrite = true
 		cmd.Wrap = true
 		cmd.Autoscroll = true
+	} else if resized {
+		movecursor(cmd, line, pos)
 	}
 	// This is the error msg view -- errors go here
 	if cmd, err = g.SetView("err", maxx/2, maxy-(maxy/ratio)+1, maxx-1, maxy-1); err != nil {
@@ -567,6 +578,39 @@ func viewrows(v *gocui.View) (rows int, last int) {
 	return rows, last
 }
 
+// Return the index of the line the cursor is in
+func curline(v *gocui.View) int {
+	maxx, _ := v.Size()
+	_, oy := v.Origin()
+	_, cy := v.Cursor()
+	row := oy + cy
+	lines := v.BufferLines()
+	for i, line := range lines {
+		row -= utf8.RuneCountInString(line)/maxx + 1
+		if row < 0 {
+			return i
+		}
+	}
+	return len(lines)
+}
+
+// Move the cursor to a position in a line and scroll the view to its end
+func movecursor(v *gocui.View, line int, pos int) {
+	maxx, maxy := v.Size()
+	row := pos / maxx
+	for i, l := range v.BufferLines() {
+		if i < line {
+			row += utf8.RuneCountInString(l)/maxx + 1
+		}
+	}
+	oy := 0
+	if rows, _ := viewrows(v); rows > maxy {
+		oy = rows - maxy
+	}
+	v.SetOrigin(0, oy)
+	v.SetCursor(pos%maxx, row-oy)
+}
+
 // Return the position of the cursor in its line, which may be wrapped
 func linepos(v *gocui.View) int {
 	maxx, _ := v.Size()
-- 
2.43.0


From 18a4453ea042fb56810f61764a85730ed007418d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:49 +0000
Subject: [PATCH 75/78] fix: changing back to the command line moved the cursor
 out of a line that is wrapped

---
 sarwin/sarwin.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 4d85bf6..5f43094 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -409,11 +409,16 @@ func gotolastrow(g *gocui.Gui, v *gocui.View) {
 	ox, oy := v.Origin()
 	cx, cy := v.Cursor()
 
-	lines := len(v.BufferLines())
+	lines, last := viewrows(v)
 	ErrPrintf(g, "white_black", "gotolastrow ox=%d oy=%d cx=%d cy=%d blines=%d\n",
 		oy, oy, cx, cy, lines)
 	// Don't move down if we already are at the last line in current views Bufferlines
-	if oy+cy == lines-1 {
+	if oy+cy >= lines-last {
+		return
+	}
+	if v.Name() == "cmd" { // To the end of the command line
+		n := len(v.BufferLines()) - 1
+		movecursor(v, n, utf8.RuneCountInString(v.BufferLines()[n]))
 		return
 	}
 	if err := v.SetCursor(cx, lines-1); err != nil {
-- 
2.43.0


From 2d8a806cb9196b3ce8af0f5e0c12a368fe07fc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:06 +0000
Subject: [PATCH 76/78] fix: up and down took the cursor below the command
 line, beyond the end of a line or into the prompt

---
 sarwin/sarwin.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 5f43094..a65a0d7 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -532,8 +532,8 @@ func CursorRight(g *gocui.Gui, v *gocui.View) error {
 func CursorDown(g *gocui.Gui, v *gocui.View) error {
 	ox, oy := v.Origin()
 	cx, cy := v.Cursor()
-	// Don't move down if we are at the last line in current views Bufferlines
-	if oy+cy == len(v.BufferLines())-1 {
+	// Don't move down if we are at the last row of the lines in the current view
+	if rows, _ := viewrows(v); oy+cy >= rows-1 {
 		//ErrPrintf(g, "white_black", "%s Down oy=%d cy=%d lines=%d\n",
 		//	v.Name(), oy, cy, len(v.BufferLines()))
 		return nil
@@ -548,6 +548,7 @@ func CursorDown(g *gocui.Gui, v *gocui.View) error {
 			return err
 		}
 	}
+	keepinline(v)
 	// ErrPrintf(g, "green_black", "%s Down oy=%d cy=%d lines=%d\n",
 	//	v.Name(), oy, cy, len(v.BufferLines()))
 	return nil
@@ -565,6 +566,8 @@ func CursorUp(g *gocui.Gui, v *gocui.View) error {
 			// v.Name(), oy, cy, len(v.BufferLines()), err.Error())
 			return err
 		}
+	} else if err == nil {
+		keepinline(v)
 	}
 	//_, cy = v.Cursor()
 	// ErrPrintf(g, "green_black", "%s Up oy=%d cy=%d lines=%d\n",
@@ -572,6 +575,26 @@ func CursorUp(g *gocui.Gui, v *gocui.View) error {
 	return nil
 }
 
+// Move the cursor of the command line between the prompt and the end of the line it is in
+func keepinline(v *gocui.View) {
+	if v.Name() != "cmd" {
+		return
+	}
+	maxx, _ := v.Size()
+	cx, cy := v.Cursor()
+	line, err := v.Line(cy)
+	if err != nil {
+		return
+	}
+	pos := linepos(v)
+	first := promptlen(Cmdinfo{Prompt: Cinfo.Prompt, Curline: curline(v), Ppad: Cinfo.Ppad})
+	if last := utf8.RuneCountInString(line); pos > last {
+		v.SetCursor(cx-(pos-last), cy)
+	} else if pos < first && first < maxx {
+		v.SetCursor(first, cy)
+	}
+}
+
 // Return how many rows the lines in the view take up when they are wrapped,
 // and how many of them the last line
 func viewrows(v *gocui.View) (rows int, last int) {
-- 
2.43.0


From 794d7e92bb93015ce825297dfa05871b00ede9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:06 +0000
Subject: [PATCH 77/78] fix: the list of transfers showed a responder as an
 initiator

---
 sarwin/sarwin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index a65a0d7..effe301 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1408,7 +1408,7 @@ func (t *Transfer) remove() error {
 
 // FmtPrint - String of relevant transfer info
 func (t *Transfer) FmtPrint(sfmt string) string {
-	return fmt.Sprintf(sfmt, "Initiator",
+	return fmt.Sprintf(sfmt, Directions[t.Direction],
 		t.Ttype,
 		t.Peer.String(),
 		t.Filename)
-- 
2.43.0


From 6075647c96fafa6b58611c6cb5c3235e2052165c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:13 +0000
Subject: [PATCH 78/78] fix: getdir moved the node into the directory it made,
 so a relative saratoga directory was another one from then on

---
 fileio/fileio.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/fileio/fileio.go b/fileio/fileio.go
index fbb643e..5bdf922 100644
--- a/fileio/fileio.go
+++ b/fileio/fileio.go
@@ -56,12 +56,8 @@ func FileOpen(fname string, ttype string) (*os.File, error) {
 		// Create the Directory
 		// BUT THEN WHAT DO WE DO!!!!
 		// LOTS CODE TO WRITE HERE
+		// Don't move into it, all names are relative to Sardir which may itself be relative
 		err = os.Mkdir(fullname, 0777)
-		if err == nil {
-			if err = os.Chdir(fullname); err != nil {
-				return nil, err
-			}
-		}
 		return nil, err
 	case "put", "give", "putblind": // We are putting a local file to a remote system
 		// Open up to read from the local file
-- 
2.43.0

