From ab56ad121fb0a0c3692e58d26736ed7e0375b893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 01/40] fix: rewrite files in place atomically and report write
 errors

format -i, modify and test removed the original before renaming the temporary
file over it, ignored write errors and never synced or closed the new file, so
a crash, a full disk or a concurrent reader could lose or miss the ledger.
---
 cmd/coin/format.go | 10 ++++++----
 cmd/coin/modify.go | 10 ++++++----
 cmd/coin/test.go   |  2 +-
 3 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/cmd/coin/format.go b/cmd/coin/format.go
index a917fbf..c324050 100644
--- a/cmd/coin/format.go
+++ b/cmd/coin/format.go
@@ -56,8 +56,8 @@ func (cmd *cmdFormat) execute(f io.Writer) {
 		}
 		cmd.writeTransactions(f)
 		if cmd.replace {
-			err = os.Remove(fn)
-			check.NoError(err, "deleting old file")
+			check.NoError(tf.Sync(), "syncing temp file")
+			check.NoError(tf.Close(), "closing temp file")
 			err = os.Rename(tf.Name(), fn)
 			check.NoError(err, "renaming temp file")
 		}
@@ -71,7 +71,9 @@ func (cmd *cmdFormat) writeTransactions(f io.Writer) {
 			t.Description = trimWS(t.Description)[0]
 			t.Notes = trimWS(t.Notes...)
 		}
-		t.Write(f, cmd.ledger)
-		fmt.Fprintln(f)
+		err := t.Write(f, cmd.ledger)
+		check.NoError(err, "writing transaction %s", t.Location())
+		_, err = fmt.Fprintln(f)
+		check.NoError(err, "writing transaction %s", t.Location())
 	}
 }
diff --git a/cmd/coin/modify.go b/cmd/coin/modify.go
index 9b726c7..635de57 100644
--- a/cmd/coin/modify.go
+++ b/cmd/coin/modify.go
@@ -96,11 +96,13 @@ func (cmd *cmdModify) execute(f io.Writer) {
 			if cmd.modify(t) {
 				count++
 			}
-			t.Write(tf, false)
-			fmt.Fprintln(tf)
+			err = t.Write(tf, false)
+			check.NoError(err, "writing transaction %s", t.Location())
+			_, err = fmt.Fprintln(tf)
+			check.NoError(err, "writing transaction %s", t.Location())
 		}
-		err = os.Remove(fn)
-		check.NoError(err, "deleting old file")
+		check.NoError(tf.Sync(), "syncing temp file")
+		check.NoError(tf.Close(), "closing temp file")
 		err = os.Rename(tf.Name(), fn)
 		check.NoError(err, "renaming temp file")
 		fmt.Fprintf(os.Stderr, "Updated %d transactions in %s\n", count, fn)
diff --git a/cmd/coin/test.go b/cmd/coin/test.go
index 3ce5ecc..1dfcd04 100644
--- a/cmd/coin/test.go
+++ b/cmd/coin/test.go
@@ -168,7 +168,7 @@ func updateTestFile(ts []*coin.Test) {
 	check.NoError(scanner.Err(), "writing trailer")
 	check.NoError(of.Close(), "closing old file")
 	check.NoError(writer.Flush(), "flushing writer")
+	check.NoError(tf.Sync(), "syncing temp file")
 	check.NoError(tf.Close(), "closing temp file")
-	check.NoError(os.Remove(fn), "deleting old file")
 	check.NoError(os.Rename(tf.Name(), fn), "renaming temp file %s to %s", tf.Name(), fn)
 }
-- 
2.43.0


From 2839cc324874a89afeeed664bed77f6972307ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:06 +0000
Subject: [PATCH 02/40] fix: report directories that cannot be listed and
 includes that do not exist

---
 coin.go    |  6 ++++--
 include.go | 36 +++++++++++++++++++++++++++++++++++-
 2 files changed, 39 insertions(+), 3 deletions(-)

diff --git a/coin.go b/coin.go
index fba2d21..f2eec77 100644
--- a/coin.go
+++ b/coin.go
@@ -61,7 +61,8 @@ func MustFindCommodity(id string, location string) *Commodity {
 func LoadPrices() {
 	LoadFile(CommoditiesFile)
 	if _, err := os.Stat(PricesFile); os.IsNotExist(err) {
-		files, _ := filepath.Glob(filepath.Join(DB, "*.prices"))
+		files, err := glob(filepath.Join(DB, "*.prices"))
+		check.NoError(err, "Failed to list %s", DB)
 		for _, f := range files {
 			LoadFile(f)
 		}
@@ -74,7 +75,8 @@ func LoadAll() {
 	LoadPrices()
 	LoadFile(AccountsFile)
 	if _, err := os.Stat(TransactionsFile); os.IsNotExist(err) {
-		files, _ := filepath.Glob(filepath.Join(DB, "*.coin"))
+		files, err := glob(filepath.Join(DB, "*.coin"))
+		check.NoError(err, "Failed to list %s", DB)
 		for _, f := range files {
 			if f != CommoditiesFile && f != AccountsFile {
 				LoadFile(f)
diff --git a/include.go b/include.go
index 054b376..e181d69 100644
--- a/include.go
+++ b/include.go
@@ -5,6 +5,7 @@ import (
 	"os"
 	"path/filepath"
 	"regexp"
+	"strings"
 )
 
 // Include takes a path pattern that will be expanded into a list of files to include
@@ -52,5 +53,38 @@ func (i *Include) Files() ([]string, error) {
 		resolved = filepath.Join(filepath.Dir(i.file), i.Path)
 	}
 	resolved = os.ExpandEnv(resolved)
-	return filepath.Glob(resolved)
+	return glob(resolved)
+}
+
+// glob is filepath.Glob, except that it
+//   - reports directories that cannot be read (filepath.Glob ignores them);
+//   - returns a pattern without wildcards as is, even if there is no such file.
+func glob(pattern string) ([]string, error) {
+	if !strings.ContainsAny(pattern, `*?[\`) {
+		return []string{pattern}, nil
+	}
+	dirs, err := glob(filepath.Dir(pattern))
+	if err != nil {
+		return nil, err
+	}
+	var files []string
+	for _, dir := range dirs {
+		if info, err := os.Stat(dir); os.IsNotExist(err) || err == nil && !info.IsDir() {
+			continue
+		}
+		entries, err := os.ReadDir(dir)
+		if err != nil {
+			return nil, err
+		}
+		for _, entry := range entries {
+			matched, err := filepath.Match(filepath.Base(pattern), entry.Name())
+			if err != nil {
+				return nil, err
+			}
+			if matched {
+				files = append(files, filepath.Join(dir, entry.Name()))
+			}
+		}
+	}
+	return files, nil
 }
-- 
2.43.0


From df62e09a139d96fa703548fb6b93633a7a87844e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:21 +0000
Subject: [PATCH 03/40] fix: end with an error when output cannot be written

---
 check/writer.go       | 16 ++++++++++++++++
 cmd/coin/main.go      |  4 +++-
 cmd/coin2html/main.go | 21 +++++++--------------
 cmd/csv2coin/main.go  |  7 ++++---
 cmd/gc2coin/main.go   |  3 ++-
 cmd/gen2coin/main.go  | 14 ++++++++------
 cmd/ofx2coin/main.go  | 11 ++++++-----
 7 files changed, 46 insertions(+), 30 deletions(-)
 create mode 100644 check/writer.go

diff --git a/check/writer.go b/check/writer.go
new file mode 100644
index 0000000..a96597a
--- /dev/null
+++ b/check/writer.go
@@ -0,0 +1,16 @@
+package check
+
+import "io"
+
+// Writer wraps w so that the program ends with an error when a write to w fails.
+func Writer(w io.Writer) io.Writer {
+	return writer{w}
+}
+
+type writer struct{ io.Writer }
+
+func (w writer) Write(b []byte) (int, error) {
+	n, err := w.Writer.Write(b)
+	NoError(err, "Failed to write output")
+	return n, err
+}
diff --git a/cmd/coin/main.go b/cmd/coin/main.go
index 3400f93..c44d682 100644
--- a/cmd/coin/main.go
+++ b/cmd/coin/main.go
@@ -6,6 +6,8 @@ import (
 	"io"
 	"os"
 	"sort"
+
+	"github.com/mkobetic/coin/check"
 )
 
 var (
@@ -78,5 +80,5 @@ func main() {
 		cmd.Parse(nil)
 	}
 	cmd.init()
-	cmd.execute(os.Stdout)
+	cmd.execute(check.Writer(os.Stdout))
 }
diff --git a/cmd/coin2html/main.go b/cmd/coin2html/main.go
index 2101912..cf371fc 100644
--- a/cmd/coin2html/main.go
+++ b/cmd/coin2html/main.go
@@ -7,6 +7,7 @@ import (
 	"os"
 
 	"github.com/mkobetic/coin"
+	"github.com/mkobetic/coin/check"
 )
 
 //go:generate npm --prefix js run build
@@ -19,7 +20,7 @@ var htmlBody string
 
 func main() {
 	coin.LoadAll()
-	var f = os.Stdout
+	var f = check.Writer(os.Stdout)
 	var encoder = json.NewEncoder(f)
 	encoder.SetIndent("", "\t")
 	fmt.Fprintln(f, "<!DOCTYPE html>")
@@ -27,31 +28,23 @@ func main() {
 	fmt.Fprint(f, htmlHead)
 	fmt.Fprintln(f, "<body>")
 	fmt.Fprintln(f, `<script type="application/json" id="importedCommodities">`)
-	if err := encoder.Encode(coin.Commodities); err != nil {
-		fmt.Fprint(os.Stderr, err.Error())
-	}
+	check.NoError(encoder.Encode(coin.Commodities), "encoding commodities")
 	fmt.Fprintln(f, "</script>")
 	fmt.Fprintf(os.Stderr, "Commodities: %d\n", len(coin.Commodities))
 	fmt.Fprintln(f, `<script type="application/json" id="importedPrices">`)
-	if err := encoder.Encode(coin.Prices); err != nil {
-		fmt.Fprint(os.Stderr, err.Error())
-	}
+	check.NoError(encoder.Encode(coin.Prices), "encoding prices")
 	fmt.Fprintln(f, "</script>")
 	fmt.Fprintf(os.Stderr, "Prices: %d\n", len(coin.Prices))
 	fmt.Fprintln(f, `<script type="application/json" id="importedAccounts">`)
-	if err := encoder.Encode(coin.AccountsByName); err != nil {
-		fmt.Fprint(os.Stderr, err.Error())
-	}
+	check.NoError(encoder.Encode(coin.AccountsByName), "encoding accountsbyname")
 	fmt.Fprintln(f, "</script>")
 	fmt.Fprintf(os.Stderr, "Accounts: %d\n", len(coin.AccountsByName))
 	fmt.Fprintln(f, `<script type="application/json" id="importedTransactions">`)
-	if err := encoder.Encode(coin.Transactions); err != nil {
-		fmt.Fprint(os.Stderr, err.Error())
-	}
+	check.NoError(encoder.Encode(coin.Transactions), "encoding transactions")
 	fmt.Fprintln(f, "</script>")
 	fmt.Fprintf(os.Stderr, "Transactions: %d\n", len(coin.Transactions))
 
 	fmt.Fprint(f, htmlBody)
 	fmt.Fprintln(f, "</body>\n</html>")
-	f.Close()
+	check.NoError(os.Stdout.Close(), "closing output")
 }
diff --git a/cmd/csv2coin/main.go b/cmd/csv2coin/main.go
index 66bb839..09d3f7f 100644
--- a/cmd/csv2coin/main.go
+++ b/cmd/csv2coin/main.go
@@ -38,6 +38,7 @@ func init() {
 
 func main() {
 	flag.Parse()
+	stdout := check.Writer(os.Stdout)
 
 	coin.LoadFile(coin.CommoditiesFile)
 	coin.LoadFile(coin.AccountsFile)
@@ -53,7 +54,7 @@ func main() {
 	}
 
 	if *dumpRules {
-		rules.Write(os.Stdout)
+		rules.Write(stdout)
 		return
 	}
 
@@ -82,8 +83,8 @@ func main() {
 	sort.Stable(transactions)
 
 	for _, t := range transactions {
-		t.Write(os.Stdout, false)
-		fmt.Fprintln(os.Stdout)
+		t.Write(stdout, false)
+		fmt.Fprintln(stdout)
 	}
 }
 
diff --git a/cmd/gc2coin/main.go b/cmd/gc2coin/main.go
index ca5d66e..5c72a17 100644
--- a/cmd/gc2coin/main.go
+++ b/cmd/gc2coin/main.go
@@ -9,6 +9,7 @@ import (
 	"strconv"
 
 	"github.com/mkobetic/coin"
+	"github.com/mkobetic/coin/check"
 	"github.com/mkobetic/coin/gnucash"
 )
 
@@ -41,7 +42,7 @@ func next(fn string) (*os.File, func()) {
 	if err != nil {
 		panic(err)
 	}
-	return f, func() { f.Close() }
+	return f, func() { check.NoError(f.Close(), "closing %s", fn) }
 }
 
 func main() {
diff --git a/cmd/gen2coin/main.go b/cmd/gen2coin/main.go
index e01a2f3..002567d 100644
--- a/cmd/gen2coin/main.go
+++ b/cmd/gen2coin/main.go
@@ -76,15 +76,16 @@ func main() {
 		}
 	}
 
+	stdout := check.Writer(os.Stdout)
 	if dir == "" { // just dump everything into stdout
 		if asJson {
-			encoder := json.NewEncoder(os.Stdout)
+			encoder := json.NewEncoder(stdout)
 			encoder.SetIndent("", "\t")
-			encoder.Encode(transactions)
+			check.NoError(encoder.Encode(transactions), "encoding transactions")
 		 } else {
 				for _, t := range transactions {
-					t.Write(os.Stdout, false)
-					fmt.Fprintln(os.Stdout)
+					t.Write(stdout, false)
+					fmt.Fprintln(stdout)
 				}
 			}
 		return
@@ -119,8 +120,9 @@ func main() {
 		w, err = os.Create(filepath.Join(dir, label+".coin"))
 		check.NoError(err, "opening transaction file %s.coin", label)
 		for _, t := range batch {
-			t.Write(w, false)
-			fmt.Fprintln(w)
+			check.NoError(t.Write(w, false), "writing transaction")
+			_, err = fmt.Fprintln(w)
+			check.NoError(err, "writing newline")
 		}
 		check.NoError(w.Close(), "closing transaction file %s.coin", label)
 	}
diff --git a/cmd/ofx2coin/main.go b/cmd/ofx2coin/main.go
index bcf341e..05df479 100644
--- a/cmd/ofx2coin/main.go
+++ b/cmd/ofx2coin/main.go
@@ -38,15 +38,16 @@ func init() {
 
 func main() {
 	flag.Parse()
+	stdout := check.Writer(os.Stdout)
 	coin.LoadAll()
 
 	if *dumpOFXIDs {
 		coin.AccountsDo(func(a *coin.Account) {
 			if a.OFXAcctId != "" {
 				if a.OFXBankId != "" {
-					fmt.Printf("%s/%s %s\n", a.OFXBankId, a.OFXAcctId, a.FullName)
+					fmt.Fprintf(stdout, "%s/%s %s\n", a.OFXBankId, a.OFXAcctId, a.FullName)
 				} else {
-					fmt.Printf("%s %s\n", a.OFXAcctId, a.FullName)
+					fmt.Fprintf(stdout, "%s %s\n", a.OFXAcctId, a.FullName)
 				}
 			}
 		})
@@ -64,7 +65,7 @@ func main() {
 	}
 
 	if *dumpRules {
-		rules.Write(os.Stdout)
+		rules.Write(stdout)
 		return
 	}
 
@@ -118,8 +119,8 @@ func main() {
 	}
 
 	for _, t := range transactions {
-		t.Write(os.Stdout, false)
-		fmt.Fprintln(os.Stdout)
+		t.Write(stdout, false)
+		fmt.Fprintln(stdout)
 	}
 }
 
-- 
2.43.0


From dc6b770168b9ec18b6d2d9bc8cae683492deb2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 04/40] fix: dump import rules in a stable order and in a form
 that can be read back

---
 cmd/csv2coin/rules.go | 34 ++++++++++++++++++++++++----------
 rules.go              | 19 ++++++++++++++++---
 2 files changed, 40 insertions(+), 13 deletions(-)

diff --git a/cmd/csv2coin/rules.go b/cmd/csv2coin/rules.go
index 1526c45..8b917c5 100644
--- a/cmd/csv2coin/rules.go
+++ b/cmd/csv2coin/rules.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -139,19 +140,27 @@ func ScanSource(line []byte, s *bufio.Scanner) *Source {
 }
 
 func (s *Source) Write(w io.Writer) {
-	fmt.Fprintln(w, s.name)
-	for _, n := range labels {
+	fmt.Fprintln(w, s.name, s.skip)
+	var names []string
+	for n := range s.fields {
+		names = append(names, n)
+	}
+	sort.Strings(names)
+	for _, n := range names {
 		fs := s.fields[n]
 		for _, f := range fs {
-			if f.re == nil {
-				if f.out != "" {
-					fmt.Fprintf(w, "  %s %s\n", n, f.out)
-				} else {
-					fmt.Fprintf(w, "  %s %d\n", n, f.idx)
+			if f.idx == nil {
+				fmt.Fprintf(w, "  %s \"%s\"", n, f.out)
+				if f.re != nil {
+					fmt.Fprintf(w, " %s %s", f.condField, f.re)
 				}
 			} else {
-				fmt.Fprintf(w, "  %s %d %s %s\n", n, f.idx, f.out, f.re)
+				fmt.Fprintf(w, "  %s %d", n, *f.idx)
+				if f.re != nil {
+					fmt.Fprintf(w, " \"%s\" %s", f.out, f.re)
+				}
 			}
+			fmt.Fprintln(w)
 		}
 	}
 }
@@ -166,8 +175,13 @@ type Rules struct {
 }
 
 func (rules *Rules) Write(w io.Writer) {
-	for _, src := range rules.sources {
-		src.Write(w)
+	var names []string
+	for n := range rules.sources {
+		names = append(names, n)
+	}
+	sort.Strings(names)
+	for _, n := range names {
+		rules.sources[n].Write(w)
 	}
 	fmt.Fprintln(w, string(separator))
 	rules.RuleIndex.Write(w)
diff --git a/rules.go b/rules.go
index 8e15eb6..80b884b 100644
--- a/rules.go
+++ b/rules.go
@@ -55,7 +55,10 @@ func (rs *RuleIndex) Write(w io.Writer) error {
 		}
 	}
 	sort.Slice(accounts, func(i, j int) bool {
-		return accounts[i].Account.FullName < accounts[j].Account.FullName
+		if accounts[i].Account != accounts[j].Account {
+			return accounts[i].Account.FullName < accounts[j].Account.FullName
+		}
+		return ids[accounts[i]] < ids[accounts[j]]
 	})
 	for _, ars := range accounts {
 		id := ids[ars]
@@ -131,12 +134,22 @@ type Rule struct {
 }
 
 func (r *Rule) Name() string {
+	if r.Account == nil {
+		return "--"
+	}
 	return r.Account.FullName
 }
 
 func (r *Rule) Write(w io.Writer, max int) error {
-	_, err := fmt.Fprintf(w, "  %-*s %s\n", max, r.Name(), r.String())
-	return err
+	if _, err := fmt.Fprintf(w, "  %-*s %s\n", max, r.Name(), r.String()); err != nil {
+		return err
+	}
+	for _, n := range r.Notes {
+		if _, err := fmt.Fprintf(w, "    ; %s\n", n); err != nil {
+			return err
+		}
+	}
+	return nil
 }
 
 func (r *Rule) RuleFor(payee string) *Rule {
-- 
2.43.0


From f15c817e199b492ce92c94fb5f48aba62056abad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:35 +0000
Subject: [PATCH 05/40] fix: pick prices, conversions and accounts in a stable
 order

---
 cmd/coin/commodities.go |  4 ++--
 coin.go                 |  8 +++++---
 commodity.go            | 12 +++++++++---
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/cmd/coin/commodities.go b/cmd/coin/commodities.go
index dbd4c54..66760b9 100644
--- a/cmd/coin/commodities.go
+++ b/cmd/coin/commodities.go
@@ -54,8 +54,8 @@ func (cmd *cmdCommodities) execute(f io.Writer) {
 			fmt.Fprintf(os.Stderr, "%s: unknown commodity\n", cmd.Arg(0))
 			return
 		}
-		for _, ps := range commodity.Prices {
-			for _, p := range ps {
+		for _, cur := range commodity.Currencies() {
+			for _, p := range commodity.Prices[cur] {
 				if cmd.location {
 					fmt.Fprintf(f, "%s %s %s %s\n", p.Time.Format(coin.DateFormat), p.Value.String(), p.Value.SafeId(false), p.Location())
 				} else {
diff --git a/coin.go b/coin.go
index f2eec77..adfc283 100644
--- a/coin.go
+++ b/coin.go
@@ -313,12 +313,14 @@ func MustFindAccount(pattern string) *Account {
 }
 
 func FindAccountOfxId(acctId string) *Account {
+	var account *Account
 	for _, a := range AccountsByName {
-		if a.OFXAcctId == acctId {
-			return a
+		// if several accounts have the id pick the same one every time
+		if a.OFXAcctId == acctId && (account == nil || a.FullName < account.FullName) {
+			account = a
 		}
 	}
-	return nil
+	return account
 }
 
 func ToRegex(pattern string) *regexp.Regexp {
diff --git a/commodity.go b/commodity.go
index 4bfa017..a62d1de 100644
--- a/commodity.go
+++ b/commodity.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"math/big"
+	"sort"
 	"strconv"
 	"strings"
 	"unicode"
@@ -44,10 +45,14 @@ func (c *Commodity) AddPrice(p *Price) {
 	c.Prices[p.Currency] = append(c.Prices[p.Currency], p)
 }
 
+// Currencies lists currencies that have prices for c, ordered by Id.
 func (c *Commodity) Currencies() (currencies []*Commodity) {
 	for cur := range c.Prices {
 		currencies = append(currencies, cur)
 	}
+	sort.Slice(currencies, func(i, j int) bool {
+		return currencies[i].Id < currencies[j].Id
+	})
 	return currencies
 }
 
@@ -80,7 +85,8 @@ func (c *Commodity) String() string {
 		return c.Id
 	}
 	var prices []string
-	for c, p := range c.Prices {
+	for _, cur := range c.Currencies() {
+		p, c := c.Prices[cur], cur
 		format := "%s %a %s [%d]"
 		if c.Decimals > 0 {
 			format = "%s %." + strconv.Itoa(c.Decimals) + "a %s [%d]"
@@ -207,12 +213,12 @@ func (c *Commodity) convert(amount *Amount, c2 *Commodity, previous []*Commodity
 		return val, nil
 	}
 	// Otherwise try to follow each c2 price currency
-	for c3, prices := range c2.Prices {
+	for _, c3 := range c2.Currencies() {
 		// Check if we tried this currency before to avoid cycles
 		if c3.includedIn(previous) {
 			continue
 		}
-		p := prices[0]
+		p := c2.Prices[c3][0]
 		val2 := amount.Times(p.Value)
 		val3, err := c.convert(val2, c3, append(previous, c2))
 		if err == nil {
-- 
2.43.0


From defde2addda1783b9c4cdd8a9c60633fbcd87b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:36 +0000
Subject: [PATCH 06/40] fix: do not load prices twice

---
 coin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coin.go b/coin.go
index adfc283..9bcd352 100644
--- a/coin.go
+++ b/coin.go
@@ -78,7 +78,7 @@ func LoadAll() {
 		files, err := glob(filepath.Join(DB, "*.coin"))
 		check.NoError(err, "Failed to list %s", DB)
 		for _, f := range files {
-			if f != CommoditiesFile && f != AccountsFile {
+			if f != CommoditiesFile && f != AccountsFile && f != PricesFile {
 				LoadFile(f)
 			}
 		}
-- 
2.43.0


From 18c1f577d92677b9f614f81dd57dc0bf103ea711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:41 +0000
Subject: [PATCH 07/40] fix: aggregate registers completely and in a stable
 order

---
 cmd/coin/register.go |  6 +++-
 cmd/coin/totals.go   | 65 ++++++++++++++++++--------------------------
 2 files changed, 32 insertions(+), 39 deletions(-)

diff --git a/cmd/coin/register.go b/cmd/coin/register.go
index 7823fc7..6da6d92 100644
--- a/cmd/coin/register.go
+++ b/cmd/coin/register.go
@@ -126,9 +126,13 @@ func (cmd *cmdRegister) aggregatedRegister(f io.Writer, acc *coin.Account) {
 		}
 	})
 	totals.sanitize()
+	if len(totals) == 0 {
+		return // nothing selected
+	}
+	timeline := totals[acc]
 	var accounts []*coin.Account
 	totals, accounts = totals.top(cmd.top)
-	totals.mergeTime(totals[acc])
+	totals.mergeTime(timeline)
 
 	if cmd.cumulative {
 		totals.makeCumulative()
diff --git a/cmd/coin/totals.go b/cmd/coin/totals.go
index 5df5868..af1dd29 100644
--- a/cmd/coin/totals.go
+++ b/cmd/coin/totals.go
@@ -30,41 +30,24 @@ func (t *timeTotal) Categories() (keys []string) {
 	return keys
 }
 
-func (t *timeTotal) AddIn(t2 *timeTotal, keysOnly bool) {
+// AddIn adds t2 amounts (or just zeros for missing categories) to t,
+// categories missing in t are created in commodity c.
+func (t *timeTotal) AddIn(t2 *timeTotal, keysOnly bool, c *coin.Commodity) {
 	check.If(t.Time.Equal(t2.Time), "%v is not equal to %v", t.Time, t2.Time)
 	if t.total != nil && !keysOnly {
-		t.total.AddIn(t2.total)
+		check.NoError(t.total.AddIn(t2.total), "cannot add %a to totals", t2.total)
 		return
 	}
 	for k, v := range t2.totals {
 		amt := t.totals[k]
-		if amt != nil {
-			if !keysOnly {
-				amt.AddIn(v)
-			}
-		} else {
-			if keysOnly {
-				t.totals[k] = coin.NewZeroAmount(v.Commodity)
-			} else {
-				t.totals[k] = v.Copy()
-			}
+		if amt == nil {
+			amt = coin.NewZeroAmount(c)
+			t.totals[k] = amt
 		}
-	}
-}
-
-func (t *timeTotal) Copy(keysOnly bool) *timeTotal {
-	if t.total != nil {
-		return &timeTotal{Time: t.Time, total: t.total.Copy()}
-	}
-	totals := make(map[string]*coin.Amount)
-	for k, v := range t.totals {
-		if keysOnly {
-			totals[k] = coin.NewZeroAmount(v.Commodity)
-		} else {
-			totals[k] = v.Copy()
+		if !keysOnly {
+			check.NoError(amt.AddIn(v), "cannot add %a to totals", v)
 		}
 	}
-	return &timeTotal{Time: t.Time, totals: totals}
 }
 
 func (t *timeTotal) Commodity() *coin.Commodity {
@@ -103,11 +86,15 @@ type timeTotals struct {
 	*timeReducer
 	*categoryReducer
 	// these are internal
-	all     []*timeTotal // ordered totals by time if we are reducing by time
-	current *timeTotal   // latest total, if not reducing by time then the only total
+	all       []*timeTotal    // ordered totals by time if we are reducing by time
+	current   *timeTotal      // latest total, if not reducing by time then the only total
+	commodity *coin.Commodity // commodity of the account
 }
 
 func (ts *timeTotals) Commodity() *coin.Commodity {
+	if ts.commodity != nil {
+		return ts.commodity
+	}
 	if ts.current != nil {
 		if c := ts.current.Commodity(); c != nil {
 			return c
@@ -173,10 +160,9 @@ func (ts *timeTotals) mergeTotals(ts2 *timeTotals, keysOnly bool) {
 			return
 		}
 		if ts.current == nil {
-			ts.current = ts2.current.Copy(keysOnly)
-		} else {
-			ts.current.AddIn(ts2.current, keysOnly)
+			ts.current = ts.newTotal(ts2.current.Time, ts.Commodity())
 		}
+		ts.current.AddIn(ts2.current, keysOnly, ts.Commodity())
 		return
 	}
 	var offsets []int
@@ -192,7 +178,7 @@ func (ts *timeTotals) mergeTotals(ts2 *timeTotals, keysOnly bool) {
 		remaining = remaining[i:]
 		j += i
 		if len(remaining) > 0 && remaining[0].Time.Equal(t.Time) {
-			remaining[0].AddIn(t, keysOnly)
+			remaining[0].AddIn(t, keysOnly, ts.Commodity())
 		} else {
 			offsets = append(offsets, j)
 			j = 0
@@ -214,7 +200,7 @@ func (ts *timeTotals) mergeTotals(ts2 *timeTotals, keysOnly bool) {
 			com = extra.Commodity()
 		}
 		newExtra := ts.newTotal(extra.Time, com)
-		newExtra.AddIn(extra, keysOnly)
+		newExtra.AddIn(extra, keysOnly, com)
 		ts.all = append(ts.all, remaining[:mark]...)
 		ts.all = append(ts.all, newExtra)
 		remaining = remaining[mark:]
@@ -377,7 +363,7 @@ func (ats accountTotals) String() string {
 }
 
 func (ats accountTotals) newTotals(acc *coin.Account, period *timeReducer, category *categoryReducer) *timeTotals {
-	ts := &timeTotals{timeReducer: period, categoryReducer: category}
+	ts := &timeTotals{timeReducer: period, categoryReducer: category, commodity: acc.Commodity}
 	ats[acc] = ts
 
 	return ts
@@ -423,7 +409,10 @@ func (ats accountTotals) top(n int) (topn accountTotals, order []*coin.Account)
 	}
 
 	sort.Slice(accounts, func(i int, j int) bool {
-		return magnitudes[accounts[i]].IsBigger(magnitudes[accounts[j]])
+		if c := magnitudes[accounts[i]].CmpMagnitude(magnitudes[accounts[j]]); c != 0 {
+			return c > 0
+		}
+		return accounts[i].FullName < accounts[j].FullName
 	})
 	if len(accounts) <= n {
 		return ats, accounts
@@ -433,7 +422,7 @@ func (ats accountTotals) top(n int) (topn accountTotals, order []*coin.Account)
 	}
 	rest := accounts[n:]
 	accounts = accounts[:n]
-	if len(rest) > 1 {
+	if len(rest) > 0 {
 		others := ats[rest[0]]
 		for _, acc := range rest[1:] {
 			others.merge(ats[acc])
@@ -563,7 +552,7 @@ func (ats accountTotals) print(f io.Writer,
 						period.Time.Format(firstCol.format))
 				}
 				amt := t.total
-				if category != "" {
+				if ts.categoryReducer != nil {
 					amt = t.totals[category]
 				}
 				args = append(args, widths[ii], amt)
@@ -623,7 +612,7 @@ func (ats accountTotals) rows(
 						period.Time.Format(firstCol.format))
 				}
 				amt := t.total
-				if category != "" {
+				if ts.categoryReducer != nil {
 					amt = t.totals[category]
 				}
 				row = append(row, amt.String())
-- 
2.43.0


From 2e22b508ac83fcdd68cafff028411910581e643a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:41 +0000
Subject: [PATCH 08/40] fix: apply an inverted payee filter to all accounts

---
 cmd/coin/register.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmd/coin/register.go b/cmd/coin/register.go
index 6da6d92..3d640c6 100644
--- a/cmd/coin/register.go
+++ b/cmd/coin/register.go
@@ -184,12 +184,13 @@ func (cmd *cmdRegister) trim(ps []*coin.Posting) postings {
 	ps = trim(ps, cmd.begin, cmd.end)
 	if len(cmd.payee) > 0 {
 		inverted := false
-		if cmd.payee[0] == '!' {
+		payee := cmd.payee
+		if payee[0] == '!' {
 			inverted = true
-			cmd.payee = cmd.payee[1:]
+			payee = payee[1:]
 		}
 		var pps []*coin.Posting
-		r := regexp.MustCompile("(?i)" + cmd.payee)
+		r := regexp.MustCompile("(?i)" + payee)
 		for _, p := range ps {
 			if match := r.MatchString(p.Transaction.Description); match && !inverted || !match && inverted {
 				pps = append(pps, p)
-- 
2.43.0


From e3297fd740e3eaee404add4249b66f7ec3f18e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:11 +0000
Subject: [PATCH 09/40] fix: resolve abbreviated dates to the date closest to
 today

---
 date.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/date.go b/date.go
index 98af69f..7efbc7e 100644
--- a/date.go
+++ b/date.go
@@ -83,7 +83,7 @@ func parseDate(match map[string]string, idx int) (t time.Time, err error) {
 		if yy := match["ymdy"]; yy != "" {
 			yyy, _ := strconv.Atoi(yy)
 			if yyy < 100 {
-				yyy = y/1000*1000 + yyy
+				yyy = y/100*100 + yyy
 				if yyy < y && y-yyy > 50 {
 					yyy += 100
 				} else if yyy > y && yyy-y > 50 {
@@ -94,10 +94,15 @@ func parseDate(match map[string]string, idx int) (t time.Time, err error) {
 				y = yyy
 			}
 		} else {
-			if mm < m && m-mm > 6 {
-				y += 1
-			} else if m < mm && mm-m > 6 {
-				y -= 1
+			// pick the year that makes it the date closest to today
+			today := time.Date(y, Month, Day, 12, 0, 0, 0, time.UTC)
+			distance := func(year int) time.Duration {
+				return time.Date(year, time.Month(mm), d, 12, 0, 0, 0, time.UTC).Sub(today).Abs()
+			}
+			for _, yy := range []int{y - 1, y + 1} {
+				if distance(yy) < distance(y) {
+					y = yy
+				}
 			}
 		}
 		m = mm
-- 
2.43.0


From 70fd38181119bad97faeb36b4598bcefb434a0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:11 +0000
Subject: [PATCH 10/40] fix: accept dates given as an offset from today in
 ledger files

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 1e66dcb..7625db1 100644
--- a/parser.go
+++ b/parser.go
@@ -51,7 +51,7 @@ func (p *Parser) Next(fn string) (Item, error) {
 		return p.parseTest(fn)
 	case bytes.HasPrefix(line, []byte("P ")):
 		return p.parsePrice(fn)
-	case '0' <= line[0] && line[0] <= '9':
+	case '0' <= line[0] && line[0] <= '9', line[0] == '+', line[0] == '-': // date or an offset from today
 		return p.parseTransaction(fn)
 	default:
 		return nil, fmt.Errorf("unrecognized item: %s", line)
-- 
2.43.0


From 36fa941387c5a54362b4670994bdda1ac68b2508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:07 +0000
Subject: [PATCH 11/40] fix: keep notes as they are when reading a transaction,
 and do not mistake blank notes for postings

---
 transaction.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/transaction.go b/transaction.go
index c9d187b..d3669cd 100644
--- a/transaction.go
+++ b/transaction.go
@@ -117,7 +117,7 @@ func (t *Transaction) Write(w io.Writer, ledger bool) error {
 	return nil
 }
 
-var transactionREX = rex.MustCompile(`%s(\s+\((?P<code>\w+)\))?(\s+(?P<description>\S[^;]*))?(; ?(?P<shortNote>.*))?`, DateREX)
+var transactionREX = rex.MustCompile(`%s(\s+\((?P<code>\w+)\))?(\s+(?P<description>[^\s;][^;]*))?(\s*; ?(?P<shortNote>.*))?`, DateREX)
 var postingREX = rex.MustCompile(``+
 	`\s+%s(\s+%s(\s+=\s+%s)?)?(\s*; ?(?P<shortNote>.*))?|`+
 	`\s+; ?(?P<note>.*)`,
@@ -135,7 +135,7 @@ func (p *Parser) parseTransaction(fn string) (*Transaction, error) {
 		line:        p.lineNr,
 		file:        fn,
 	}
-	if n := strings.TrimLeft(match["shortNote"], " \t"); len(n) > 0 {
+	if n := match["shortNote"]; len(strings.TrimSpace(n)) > 0 {
 		t.Notes = []string{n}
 	}
 	var notes []string
@@ -145,8 +145,10 @@ func (p *Parser) parseTransaction(fn string) (*Transaction, error) {
 		if match == nil {
 			break
 		}
-		if note := match["note"]; len(note) > 0 {
-			notes = append(notes, string(note))
+		if match["account"] == "" {
+			if note := match["note"]; len(strings.TrimSpace(note)) > 0 {
+				notes = append(notes, note)
+			}
 			continue
 		}
 		var quantity *Amount
@@ -171,7 +173,7 @@ func (p *Parser) parseTransaction(fn string) (*Transaction, error) {
 			accountName: match["account"],
 			Quantity:    quantity,
 		}
-		if n := strings.TrimLeft(match["shortNote"], " \t"); len(n) > 0 {
+		if n := match["shortNote"]; len(strings.TrimSpace(n)) > 0 {
 			s.Notes = []string{n}
 		}
 		if balance := match["amount2"]; len(balance) > 0 {
@@ -184,7 +186,9 @@ func (p *Parser) parseTransaction(fn string) (*Transaction, error) {
 		}
 		t.Postings = append(t.Postings, s)
 	}
-	if len(notes) > 0 {
+	if s == nil {
+		t.Notes = append(t.Notes, notes...)
+	} else {
 		s.Notes = append(s.Notes, notes...)
 	}
 	t.Tags = ParseTags(t.Notes...)
-- 
2.43.0


From 9d398cd8befc2525df86ff9d0cf280ed9b76daa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:50 +0000
Subject: [PATCH 12/40] fix: read single character tag values

---
 tags.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tags.go b/tags.go
index 00f9d90..ba6569c 100644
--- a/tags.go
+++ b/tags.go
@@ -6,7 +6,7 @@ import (
 	"strings"
 )
 
-var tagREX = regexp.MustCompile(`#(?P<key>[\w-/]+)(:\s*(?P<value>[^,]+\S)\s*(,|$))?`)
+var tagREX = regexp.MustCompile(`#(?P<key>[\w-/]+)(:\s*(?P<value>[^,]*[^,\s])\s*(,|$))?`)
 var tagREXKey = tagREX.SubexpIndex("key")
 var tagREXValue = tagREX.SubexpIndex("value")
 
-- 
2.43.0


From 368cdc864e30bbbd3645269e44bdd09f8ea26d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:50 +0000
Subject: [PATCH 13/40] fix: modify all matching postings, each once, and keep
 added tags separate

---
 cmd/coin/modify.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/cmd/coin/modify.go b/cmd/coin/modify.go
index 635de57..91ba9e8 100644
--- a/cmd/coin/modify.go
+++ b/cmd/coin/modify.go
@@ -121,10 +121,11 @@ func (cmd *cmdModify) modify(t *coin.Transaction) (modified bool) {
 	for _, p := range t.Postings {
 		if p.Account == cmd.from {
 			hasPostingsMatchingAccount = true
-			modified = modified || cmd.modifyPosting(p)
+		} else if cmd.ptag == nil || !cmd.ptag.Match(p.Tags) {
+			continue
 		}
-		if cmd.ptag != nil && cmd.ptag.Match(p.Tags) {
-			modified = modified || cmd.modifyPosting(p)
+		if cmd.modifyPosting(p) {
+			modified = true
 		}
 	}
 
@@ -133,6 +134,7 @@ func (cmd *cmdModify) modify(t *coin.Transaction) (modified bool) {
 	}
 	if len(cmd.setTTag) > 0 {
 		t.Notes = addTagLine(t.Notes, cmd.setTTag)
+		modified = true
 	}
 	return modified
 }
@@ -168,7 +170,11 @@ func addTagLine(notes []string, tagLine string) []string {
 		return append(notes, tagLine)
 	}
 	if len(notes[0])+len(tagLine) < coin.TRANSACTION_LINE_MAX {
-		notes[0] += " " + tagLine
+		separator := " "
+		if len(coin.ParseTags(notes[0])) > 0 {
+			separator = ", " // so that it doesn't become part of the value of the tag before
+		}
+		notes[0] += separator + tagLine
 		return notes
 	}
 	return append(notes, tagLine)
-- 
2.43.0


From 08faeff940dd43d6fc3798f4d5369422309253ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:31 +0000
Subject: [PATCH 14/40] fix: match imported OFX transactions with those already
 in the ledger by date

---
 cmd/ofx2coin/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/ofx2coin/main.go b/cmd/ofx2coin/main.go
index 05df479..caaa845 100644
--- a/cmd/ofx2coin/main.go
+++ b/cmd/ofx2coin/main.go
@@ -187,8 +187,11 @@ func newTransaction(ars *coin.AccountRules, date time.Time, payee string, amount
 	if balance != nil {
 		bal = coin.NewAmountFrac(balance.Num(), balance.Denom(), ars.Account.Commodity)
 	}
+	// Keep just the date, the way dates are read from coin files,
+	// so that the transaction can be matched with those that were imported before.
+	y, m, d := date.Date()
 	t := &coin.Transaction{
-		Posted:      date,
+		Posted:      time.Date(y, m, d, 12, 0, 0, 0, time.UTC),
 		Description: payee,
 		Notes:       notes,
 	}
-- 
2.43.0


From 75833751fa2dec210410365c1f5a08048352fd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:31 +0000
Subject: [PATCH 15/40] fix: keep the balance assertion of a dropped duplicate
 transaction

---
 transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transaction.go b/transaction.go
index d3669cd..8b64b28 100644
--- a/transaction.go
+++ b/transaction.go
@@ -53,7 +53,7 @@ func (transactions TransactionsByTime) Less(i, j int) bool {
 func (transactions TransactionsByTime) FindEqual(t *Transaction) *Transaction {
 	for _, t2 := range transactions {
 		if t2.IsEqual(t) {
-			return t
+			return t2
 		}
 	}
 	return nil
-- 
2.43.0


From 60e769b912c88565919da5f348554f34f5c3d2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:31 +0000
Subject: [PATCH 16/40] fix: do not drop the last line of BMO files without a
 newline at the end

---
 cmd/ofx2coin/bmo.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/ofx2coin/bmo.go b/cmd/ofx2coin/bmo.go
index ac33eb6..39dc60f 100644
--- a/cmd/ofx2coin/bmo.go
+++ b/cmd/ofx2coin/bmo.go
@@ -39,6 +39,9 @@ func (r *bmoReader) Read(p []byte) (n int, err error) {
 	loop:
 		for {
 			r.lastLine, err = r.ReadBytes('\n')
+			if err == io.EOF && len(r.lastLine) > 0 {
+				err = nil // last line without a newline
+			}
 			if err != nil {
 				return 0, err
 			}
-- 
2.43.0


From 98c334b5dcdf0a2b41e7adcc94180f0ce0f76adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:33 +0000
Subject: [PATCH 17/40] fix: read rules with single character patterns and
 account names with slashes

---
 rules.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rules.go b/rules.go
index 80b884b..5abb460 100644
--- a/rules.go
+++ b/rules.go
@@ -159,9 +159,9 @@ func (r *Rule) RuleFor(payee string) *Rule {
 	return nil
 }
 
-var patternRE = `([\w:$^\\-]+)`
+var patternRE = `([\w:$^\\/-]+)`
 var headerRE = regexp.MustCompile(`^(\w+)\s+` + patternRE + `|^(\w+)`)
-var bodyRE = regexp.MustCompile(`^\s+` + patternRE + `(\s+(\S.*\S))?|` +
+var bodyRE = regexp.MustCompile(`^\s+` + patternRE + `(\s+(\S(?:.*\S)?))?|` +
 	`^\s+@(\w+)|` +
 	`^\s+;\s+(.*)`)
 
-- 
2.43.0


From 4461dc692bc33dfe3c41e32e3b5f5acbca6508d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:48 +0000
Subject: [PATCH 18/40] fix: import without rules files, with either section of
 csv.rules missing, and with fewer -fields

---
 cmd/csv2coin/main.go  | 6 +++---
 cmd/csv2coin/rules.go | 2 +-
 cmd/ofx2coin/main.go  | 2 +-
 rules.go              | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cmd/csv2coin/main.go b/cmd/csv2coin/main.go
index 09d3f7f..f030352 100644
--- a/cmd/csv2coin/main.go
+++ b/cmd/csv2coin/main.go
@@ -44,7 +44,7 @@ func main() {
 	coin.LoadFile(coin.AccountsFile)
 	coin.ResolveAccounts()
 
-	var rules *Rules
+	rules := &Rules{RuleIndex: &coin.RuleIndex{}}
 	fn := filepath.Join(coin.DB, "csv.rules")
 	if _, err := os.Stat(fn); !os.IsNotExist(err) {
 		file, err := os.Open(fn)
@@ -223,8 +223,8 @@ var labels = []string{
 
 func parseFields(list string) map[string]Fields {
 	idxs := strings.Split(list, ",")
-	check.If(len(idxs) == len(labels),
-		"%d fields must be specified:\n%v\n", len(labels), labels)
+	check.If(len(idxs) <= len(labels),
+		"at most %d fields can be specified:\n%v\n", len(labels), labels)
 	fields := make(map[string]Fields)
 	for i, s := range idxs {
 		c, err := strconv.Atoi(s)
diff --git a/cmd/csv2coin/rules.go b/cmd/csv2coin/rules.go
index 8b917c5..bc55cb5 100644
--- a/cmd/csv2coin/rules.go
+++ b/cmd/csv2coin/rules.go
@@ -188,7 +188,7 @@ func (rules *Rules) Write(w io.Writer) {
 }
 
 func ReadRules(r io.Reader) *Rules {
-	rules := Rules{sources: map[string]*Source{}}
+	rules := Rules{sources: map[string]*Source{}, RuleIndex: &coin.RuleIndex{}}
 	s := bufio.NewScanner(r)
 	check.If(s.Scan(), "Failed scanning first line: %s", s.Err())
 	line := s.Bytes()
diff --git a/cmd/ofx2coin/main.go b/cmd/ofx2coin/main.go
index caaa845..bed74c5 100644
--- a/cmd/ofx2coin/main.go
+++ b/cmd/ofx2coin/main.go
@@ -54,7 +54,7 @@ func main() {
 		return
 	}
 
-	var rules *coin.RuleIndex
+	rules := &coin.RuleIndex{}
 	fn := filepath.Join(coin.DB, "ofx.rules")
 	if _, err := os.Stat(fn); !os.IsNotExist(err) {
 		file, err := os.Open(fn)
diff --git a/rules.go b/rules.go
index 5abb460..07141cd 100644
--- a/rules.go
+++ b/rules.go
@@ -168,7 +168,7 @@ var bodyRE = regexp.MustCompile(`^\s+` + patternRE + `(\s+(\S(?:.*\S)?))?|` +
 func ReadRules(r io.Reader) (*RuleIndex, error) {
 	s := bufio.NewScanner(r)
 	if !s.Scan() {
-		return nil, s.Err()
+		return &RuleIndex{}, s.Err()
 	}
 	return ScanRules(s.Bytes(), s)
 }
-- 
2.43.0


From 58678fbacf9ab25fd1e67ab1f504c99b3cf0816a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:49 +0000
Subject: [PATCH 19/40] fix: accept rule notes without a space after the
 semicolon

---
 rules.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rules.go b/rules.go
index 07141cd..8587469 100644
--- a/rules.go
+++ b/rules.go
@@ -163,7 +163,7 @@ var patternRE = `([\w:$^\\/-]+)`
 var headerRE = regexp.MustCompile(`^(\w+)\s+` + patternRE + `|^(\w+)`)
 var bodyRE = regexp.MustCompile(`^\s+` + patternRE + `(\s+(\S(?:.*\S)?))?|` +
 	`^\s+@(\w+)|` +
-	`^\s+;\s+(.*)`)
+	`^\s+;\s*(.*)`)
 
 func ReadRules(r io.Reader) (*RuleIndex, error) {
 	s := bufio.NewScanner(r)
-- 
2.43.0


From 96a1af7df1e206f551f7908fb0c318eeef52fedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:59 +0000
Subject: [PATCH 20/40] fix: do not lose the import rules when csv.rules cannot
 be read

---
 cmd/csv2coin/rules.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/csv2coin/rules.go b/cmd/csv2coin/rules.go
index bc55cb5..edee985 100644
--- a/cmd/csv2coin/rules.go
+++ b/cmd/csv2coin/rules.go
@@ -195,6 +195,7 @@ func ReadRules(r io.Reader) *Rules {
 	for {
 		if bytes.Equal(line, separator) {
 			if !s.Scan() { // nothing after separator
+				check.NoError(s.Err(), "Failed reading rules")
 				return &rules
 			}
 			break
-- 
2.43.0


From 74ed2a2fd8456220aa958248a8b67e21f220d283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:10 +0000
Subject: [PATCH 21/40] fix: do not import records without an account ID into
 an arbitrary account

---
 coin.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/coin.go b/coin.go
index 9bcd352..b1c3cf1 100644
--- a/coin.go
+++ b/coin.go
@@ -313,6 +313,9 @@ func MustFindAccount(pattern string) *Account {
 }
 
 func FindAccountOfxId(acctId string) *Account {
+	if acctId == "" { // most accounts do not have an id
+		return nil
+	}
 	var account *Account
 	for _, a := range AccountsByName {
 		// if several accounts have the id pick the same one every time
-- 
2.43.0


From b5b4df71ed41899dbd09584189b78566aab70c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:40 +0000
Subject: [PATCH 22/40] fix: do not double the balances of generated postings

---
 cmd/gen2coin/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/gen2coin/main.go b/cmd/gen2coin/main.go
index 002567d..5605331 100644
--- a/cmd/gen2coin/main.go
+++ b/cmd/gen2coin/main.go
@@ -72,6 +72,7 @@ func main() {
 
 	if withBalances {
 		for _, a := range coin.AccountsByName {
+			a.Balance().SetInt64(0) // generating the postings updated it already
 			a.CheckPostings()
 		}
 	}
-- 
2.43.0


From 27cc0730e4d84f2f6db4320698a4378d4039f2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:10 +0000
Subject: [PATCH 23/40] fix: read amounts of any size

---
 amount.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/amount.go b/amount.go
index d07feb6..32ed9d3 100644
--- a/amount.go
+++ b/amount.go
@@ -5,7 +5,6 @@ import (
 	"fmt"
 	"io"
 	"math/big"
-	"strconv"
 	"strings"
 
 	"github.com/mkobetic/coin/rex"
@@ -75,11 +74,10 @@ func (a *Amount) Format(f fmt.State, c rune) {
 func parseAmount(s string, c *Commodity) (*Amount, error) {
 	ss := strings.Split(s, ".")
 	if len(ss) == 1 {
-		i, err := strconv.ParseInt(ss[0], 10, 64)
-		if err != nil {
-			return nil, err
+		bi, ok := new(big.Int).SetString(ss[0], 10)
+		if !ok {
+			return nil, fmt.Errorf("malformed value %s", s)
 		}
-		bi := big.NewInt(i)
 		if c.Decimals > 0 {
 			bi.Mul(bi, bigPow10(c.Decimals))
 		}
@@ -88,12 +86,10 @@ func parseAmount(s string, c *Commodity) (*Amount, error) {
 	if len(ss) != 2 {
 		return nil, fmt.Errorf("malformed value %s", s)
 	}
-	s = strings.Join(ss, "")
-	i, err := strconv.ParseInt(s, 10, 64)
-	if err != nil {
-		return nil, err
+	bi, ok := new(big.Int).SetString(strings.Join(ss, ""), 10)
+	if !ok {
+		return nil, fmt.Errorf("malformed value %s", s)
 	}
-	bi := big.NewInt(i)
 	decimals := len(ss[1])
 	if c.Decimals != decimals {
 		bi.Mul(bi, bigPow10(c.Decimals))
-- 
2.43.0


From 9e2af4d85e4d5b055045a34c79a4fc915ce616f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:10 +0000
Subject: [PATCH 24/40] fix: round quoted prices and allow large ones

---
 commodity.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/commodity.go b/commodity.go
index a62d1de..bba6749 100644
--- a/commodity.go
+++ b/commodity.go
@@ -229,12 +229,14 @@ func (c *Commodity) convert(amount *Amount, c2 *Commodity, previous []*Commodity
 	return nil, fmt.Errorf("cannot convert %s => %s", c2.Id, c.Id)
 }
 
+// NewAmountFloat rounds f to the decimals of the commodity.
 func (c *Commodity) NewAmountFloat(f float64) *Amount {
-	return NewAmount(
-		// FIXME: the int64 conversion can overflow
-		big.NewInt(int64(f*float64(pow10(c.Decimals)))),
-		c,
-	)
+	digits := strconv.FormatFloat(f, 'f', c.Decimals, 64)
+	i, ok := new(big.Int).SetString(strings.Replace(digits, ".", "", 1), 10)
+	if !ok { // not a number or infinite
+		panic(fmt.Errorf("invalid amount %s", digits))
+	}
+	return NewAmount(i, c)
 }
 
 func (c *Commodity) SetFraction(frac int64) {
-- 
2.43.0


From ede2ba2789a7d698dcbab5a3f995492c0cd78dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:10 +0000
Subject: [PATCH 25/40] fix: report missing quotes and carry on with the others

---
 cmd/coin/commodities.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/coin/commodities.go b/cmd/coin/commodities.go
index 66760b9..b50a158 100644
--- a/cmd/coin/commodities.go
+++ b/cmd/coin/commodities.go
@@ -75,7 +75,7 @@ func (cmd *cmdCommodities) execute(f io.Writer) {
 				} else {
 					var fx *finance.ForexPair
 					fx, err = forex.Get(c.Id + coin.DefaultCommodityId + "=X")
-					if err == nil {
+					if fx != nil {
 						q = &fx.Quote
 					}
 				}
@@ -83,6 +83,10 @@ func (cmd *cmdCommodities) execute(f io.Writer) {
 					fmt.Fprintf(os.Stderr, "%s: %s\n", c.Id, err)
 					return
 				}
+				if q == nil || q.RegularMarketPrice == 0 {
+					fmt.Fprintf(os.Stderr, "%s: no quote\n", c.Id)
+					return
+				}
 				cur := coin.Commodities[q.CurrencyID]
 				if cur == nil {
 					fmt.Fprintf(os.Stderr, "%s: no commodity for %s\n", c.Id, q.CurrencyID)
-- 
2.43.0


From f30a690813e45f1e518757b0ed05b3de58482d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:28 +0000
Subject: [PATCH 26/40] fix: report a test without its end instead of appending
 to the file on every run

---
 test.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/test.go b/test.go
index 2a5d88e..9bdc9c1 100644
--- a/test.go
+++ b/test.go
@@ -29,7 +29,10 @@ func (p *Parser) parseTest(fn string) (*Test, error) {
 		b.Write(p.Bytes())
 		fmt.Fprintln(&b)
 	}
-	return t, p.Err()
+	if err := p.Err(); err != nil {
+		return t, err
+	}
+	return t, fmt.Errorf("%s: test without end test", t.Location())
 }
 
 func (t *Test) Location() string {
-- 
2.43.0


From c40dcb9d0f61afebeb753e33991a9a1fbaaa54b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:35 +0000
Subject: [PATCH 27/40] fix: trimming whitespace in one test does not affect
 the tests after it

---
 cmd/coin/format.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/coin/format.go b/cmd/coin/format.go
index c324050..6249ee2 100644
--- a/cmd/coin/format.go
+++ b/cmd/coin/format.go
@@ -68,6 +68,8 @@ func (cmd *cmdFormat) execute(f io.Writer) {
 func (cmd *cmdFormat) writeTransactions(f io.Writer) {
 	for _, t := range coin.Transactions {
 		if cmd.trimWS {
+			trimmed := *t // other tests may use the original
+			t = &trimmed
 			t.Description = trimWS(t.Description)[0]
 			t.Notes = trimWS(t.Notes...)
 		}
-- 
2.43.0


From 0b0cbb5307d0e45f3d45737cf6dadb4827b7c5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:19 +0000
Subject: [PATCH 28/40] fix: keep the results of tests whose file includes
 other tests in place

---
 cmd/coin/test.go | 77 ++++++++++++++++++++++++++----------------------
 1 file changed, 41 insertions(+), 36 deletions(-)

diff --git a/cmd/coin/test.go b/cmd/coin/test.go
index 1dfcd04..5e93872 100644
--- a/cmd/coin/test.go
+++ b/cmd/coin/test.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"os"
 	"path"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -41,25 +42,16 @@ func (cmd *cmdTest) init() {
 }
 
 func (cmd *cmdTest) execute(f io.Writer) {
-	if len(coin.Tests) == 0 {
-		return
-	}
-	lastTestFile := file(coin.Tests[0])
-	var toUpdate []*coin.Test
-	success := true
+	// tests of a file may be interleaved with the tests of the files it includes
+	var files []string
+	toUpdate := map[string][]*coin.Test{}
+	failed := map[string]bool{}
+	known := map[string]bool{}
 	for _, t := range coin.Tests {
-		// assume the tests are sorted file by file
-		// and in the order they are in the file
 		testFile := file(t)
-		startingNewFile := testFile != lastTestFile
-		var oldTestFile string // this is set only when moving to new file
-		if startingNewFile {
-			oldTestFile = lastTestFile
-		}
-		lastTestFile = testFile
-		if startingNewFile && len(toUpdate) > 0 {
-			updateTestFile(toUpdate)
-			toUpdate = nil
+		if !known[testFile] {
+			known[testFile] = true
+			files = append(files, testFile)
 		}
 		var args []string
 		scanner := bufio.NewScanner(strings.NewReader(t.Cmd))
@@ -88,20 +80,18 @@ func (cmd *cmdTest) execute(f io.Writer) {
 		command.execute(&b)
 		// If the test result is empty, update the test file
 		// once we collect all the tests to be updated
-		if len(t.Result) == 0 {
+		if len(t.Result) == 0 && b.Len() > 0 {
 			t.Result = b.Bytes()
-			toUpdate = append(toUpdate, t)
+			toUpdate[testFile] = append(toUpdate[testFile], t)
 			continue
 		}
 		if bytes.Equal(b.Bytes(), t.Result) {
 			if cmd.verbose {
 				fmt.Fprintf(f, "OK %s %s\n", t.Location(), t.Cmd)
-			} else if oldTestFile != "" {
-				fmt.Fprintf(f, "OK %s\n", oldTestFile)
 			}
 			continue
 		}
-		success = false
+		failed[testFile] = true
 		fmt.Fprintf(f, "FAIL %s %s\n", t.Location(), t.Cmd)
 		difflib.WriteUnifiedDiff(f,
 			difflib.UnifiedDiff{
@@ -112,28 +102,42 @@ func (cmd *cmdTest) execute(f io.Writer) {
 				Context:  3,
 			})
 	}
-	if len(toUpdate) > 0 {
-		updateTestFile(toUpdate)
-	}
-	if !cmd.verbose {
-		result := "OK"
-		if !success {
-			result = "FAIL"
+	for _, testFile := range files {
+		if ts := toUpdate[testFile]; len(ts) > 0 {
+			updateTestFile(ts)
+		}
+		if !cmd.verbose {
+			result := "OK"
+			if failed[testFile] {
+				result = "FAIL"
+			}
+			fmt.Fprintf(f, "%s %s\n", result, testFile)
 		}
-		fmt.Fprintf(f, "%s %s\n", result, lastTestFile)
 	}
 }
 
+// location splits the location of a test (the file name may contain colons too)
+func location(t *coin.Test) (file string, line int) {
+	loc := t.Location()
+	i := strings.LastIndexByte(loc, ':')
+	line, _ = strconv.Atoi(loc[i+1:])
+	return path.Clean(loc[:i]), line
+}
+
 func file(t *coin.Test) string {
-	file, _, _ := strings.Cut(t.Location(), ":")
+	file, _ := location(t)
 	return file
 }
 
-// assume ts are tests from the same file in the order in which they are in the file,
-// and all test have empty result in the file,
+// assume ts are tests from the same file, and all tests have empty result in the file,
 // then write the results from the test commands into the file.
 func updateTestFile(ts []*coin.Test) {
 	fn := file(ts[0])
+	sort.SliceStable(ts, func(i, j int) bool {
+		_, li := location(ts[i])
+		_, lj := location(ts[j])
+		return li < lj
+	})
 	tf, err := os.CreateTemp(path.Dir(fn), path.Base(fn))
 	check.NoError(err, "creating temp file")
 	// read file fn by lines up to line
@@ -146,9 +150,10 @@ func updateTestFile(ts []*coin.Test) {
 	writer := bufio.NewWriter(tf)
 	line := 0
 	for i, t := range ts {
-		_, ln, _ := strings.Cut(t.Location(), ":")
-		tLine, _ := strconv.Atoi(ln)
-
+		_, tLine := location(t)
+		if i > 0 && tLine <= line {
+			continue // the file is included more than once
+		}
 		for ; line < tLine && scanner.Scan(); line++ {
 			_, err := writer.Write(scanner.Bytes())
 			check.NoError(err, "writing prefix %d", i)
-- 
2.43.0


From 99dbb2bf0d4ad93848a87f0f0eb9de53900bdc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:19 +0000
Subject: [PATCH 29/40] fix: an unknown command in a test does not drop the
 results of the others

---
 cmd/coin/test.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/coin/test.go b/cmd/coin/test.go
index 5e93872..ab92630 100644
--- a/cmd/coin/test.go
+++ b/cmd/coin/test.go
@@ -61,14 +61,16 @@ func (cmd *cmdTest) execute(f io.Writer) {
 		}
 		if len(args) == 0 {
 			fmt.Fprintf(os.Stderr, "FAIL: test item is missing command %s\n", t.Location())
-			return
+			failed[testFile] = true
+			continue
 		}
 		// fmt.Println(args)
 		// continue
 		command, found := aliases[args[0]]
 		if !found {
 			fmt.Fprintf(os.Stderr, "FAIL: command unknown: %s %s\n", args[0], t.Location())
-			return
+			failed[testFile] = true
+			continue
 		}
 		command = command.newCommand(command.Name())
 		if len(args) > 1 {
-- 
2.43.0


From 3f19123900c0b8759c5b1f7a3a82551c4e2241d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:36 +0000
Subject: [PATCH 30/40] fix: detect include loops of any length

---
 coin.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/coin.go b/coin.go
index b1c3cf1..c1fb42e 100644
--- a/coin.go
+++ b/coin.go
@@ -88,11 +88,21 @@ func LoadAll() {
 	ResolveAll()
 }
 
+// loading are the files being loaded, each included by the one before it.
+var loading []os.FileInfo
+
 func LoadFile(filename string) {
 	file, err := os.Open(filename)
 	check.NoError(err, "Failed to open %s", filename)
 	defer file.Close()
+	info, err := file.Stat()
+	check.NoError(err, "Failed to open %s", filename)
+	for _, l := range loading {
+		check.If(!os.SameFile(l, info), "Include loop detected %s", filename)
+	}
+	loading = append(loading, info)
 	Load(file, filename)
+	loading = loading[:len(loading)-1]
 }
 
 func Load(r io.Reader, fn string) {
@@ -124,8 +134,6 @@ func Load(r io.Reader, fn string) {
 			files, err := i.Files()
 			check.NoError(err, "Failed to resolve include %s", i.Path)
 			for _, f := range files {
-				// This won't catch nested loops, but should catch the easier to make errors.
-				check.If(f != fn, "Include loop detected %s", f)
 				LoadFile(f)
 			}
 		default:
-- 
2.43.0


From 4da858f1ea186e37088c5bd657e81c555614acd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:29 +0000
Subject: [PATCH 31/40] fix: do not lose transactions around new year when
 splitting by year

---
 cmd/gc2coin/main.go | 57 +++++++++++++++++++++------------------------
 1 file changed, 27 insertions(+), 30 deletions(-)

diff --git a/cmd/gc2coin/main.go b/cmd/gc2coin/main.go
index 5c72a17..10f55a5 100644
--- a/cmd/gc2coin/main.go
+++ b/cmd/gc2coin/main.go
@@ -33,16 +33,30 @@ func init() {
 	}
 }
 
-func next(fn string) (*os.File, func()) {
+var created = map[string]*os.File{}
+
+// next returns the output file with given name,
+// the files stay open until done because the years of the transactions may alternate.
+func next(fn string) *os.File {
 	if coin.DB == "" {
-		return os.Stdout, func() {}
+		return os.Stdout
 	}
 	fn = filepath.Join(coin.DB, fn)
+	if f := created[fn]; f != nil {
+		return f
+	}
 	f, err := os.Create(fn)
 	if err != nil {
 		panic(err)
 	}
-	return f, func() { check.NoError(f.Close(), "closing %s", fn) }
+	created[fn] = f
+	return f
+}
+
+func done() {
+	for fn, f := range created {
+		check.NoError(f.Close(), "closing %s", fn)
+	}
 }
 
 func main() {
@@ -58,8 +72,8 @@ func main() {
 		os.Exit(1)
 	}
 	gnucash.Load(*gnucashDB)
-	f, done := next(coin.CommoditiesFilename)
 	defer done()
+	f := next(coin.CommoditiesFilename)
 	coin.CommoditiesDo(func(c *coin.Commodity) {
 		if c.Name == "template" {
 			return
@@ -74,21 +88,12 @@ func main() {
 		}
 	})
 
-	// Assume prices are sorted by date
-	var year int
-	if *yearly {
-		year := coin.Prices[0].Time.Year()
-		f, done = next(strconv.Itoa(year) + coin.PricesExtension)
-		defer done()
-	} else {
-		f, done = next(coin.PricesFilename)
-		defer done()
+	if !*yearly {
+		f = next(coin.PricesFilename)
 	}
 	for _, p := range coin.Prices {
-		if *yearly && p.Time.Year() != year {
-			year = p.Time.Year()
-			f, done = next(strconv.Itoa(year) + coin.PricesExtension)
-			defer done()
+		if *yearly {
+			f = next(strconv.Itoa(p.Time.Year()) + coin.PricesExtension)
 		}
 		err := p.Write(f, *ledger)
 		if err != nil {
@@ -96,8 +101,7 @@ func main() {
 		}
 	}
 
-	f, done = next(coin.AccountsFilename)
-	defer done()
+	f = next(coin.AccountsFilename)
 	coin.AccountsDo(func(a *coin.Account) {
 		err := a.Write(f, *ledger)
 		if err != nil {
@@ -109,19 +113,12 @@ func main() {
 		}
 	})
 
-	if *yearly {
-		year := coin.Transactions[0].Posted.Year()
-		f, done = next(strconv.Itoa(year) + coin.TransactionsExtension)
-		defer done()
-	} else {
-		f, done = next(coin.TransactionsFilename)
-		defer done()
+	if !*yearly {
+		f = next(coin.TransactionsFilename)
 	}
 	for _, p := range coin.Transactions {
-		if *yearly && p.Posted.Year() != year {
-			year = p.Posted.Year()
-			f, done = next(strconv.Itoa(year) + coin.TransactionsExtension)
-			defer done()
+		if *yearly {
+			f = next(strconv.Itoa(p.Posted.Year()) + coin.TransactionsExtension)
 		}
 		err := p.Write(f, *ledger)
 		if err != nil {
-- 
2.43.0


From 1b7e8607ea81d3e3efa4d28c916a246417f3024e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:29 +0000
Subject: [PATCH 32/40] fix: reject a corrupted GnuCash database

---
 gnucash/gnucash.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gnucash/gnucash.go b/gnucash/gnucash.go
index 0aa1553..42573be 100644
--- a/gnucash/gnucash.go
+++ b/gnucash/gnucash.go
@@ -5,6 +5,7 @@ import (
 	"compress/gzip"
 	"encoding/xml"
 	"fmt"
+	"io"
 	"math/big"
 	"os"
 	"strings"
@@ -55,6 +56,10 @@ func Load(fn string) *Book {
 	if err != nil {
 		panic(err)
 	}
+	// read to the end to have the checksum verified
+	if _, err = io.Copy(io.Discard, r); err != nil {
+		panic(fmt.Errorf("%s: %s", fn, err))
+	}
 	db.Book.Resolve()
 	return &(db.Book)
 }
-- 
2.43.0


From d6621924fccc4b763592ec5d1a499ea11fcba3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:30 +0000
Subject: [PATCH 33/40] fix: keep the decimals of GnuCash currencies without a
 fraction

---
 gnucash/commodity.go | 10 +++++++++-
 gnucash/gnucash.go   |  2 +-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/gnucash/commodity.go b/gnucash/commodity.go
index 80dcb20..5766096 100644
--- a/gnucash/commodity.go
+++ b/gnucash/commodity.go
@@ -49,8 +49,16 @@ func CommodityFrom(c *Commodity) *coin.Commodity {
 	return cc
 }
 
-func resolveCommodities(commodities []*Commodity) {
+func resolveCommodities(commodities []*Commodity, accounts []*Account) {
 	for _, gc := range commodities {
+		if gc.Fraction == 0 { // currencies don't have to have one
+			gc.Fraction = 100
+			for _, a := range accounts {
+				if a.CommoditySpace == gc.Space && a.CommodityId == gc.Id && int64(a.CommodityScu) > gc.Fraction {
+					gc.Fraction = int64(a.CommodityScu)
+				}
+			}
+		}
 		c := CommodityFrom(gc)
 		coin.Commodities[c.Id] = c
 	}
diff --git a/gnucash/gnucash.go b/gnucash/gnucash.go
index 42573be..809e7a2 100644
--- a/gnucash/gnucash.go
+++ b/gnucash/gnucash.go
@@ -32,7 +32,7 @@ type Book struct {
 
 // Resolve relinks all the book objects after unmarshaling from XML
 func (book *Book) Resolve() {
-	resolveCommodities(book.Commodities)
+	resolveCommodities(book.Commodities, book.Accounts)
 	resolvePrices(book.Prices)
 	resolveAccounts(book.Accounts)
 	resolveTransactions(book.Transactions)
-- 
2.43.0


From 2b1ed06523a60f7509d12e705dbc7a029152a1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:32 +0000
Subject: [PATCH 34/40] fix: a line that is not indented is not a posting of
 the transaction before it

---
 transaction.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/transaction.go b/transaction.go
index 8b64b28..e036da8 100644
--- a/transaction.go
+++ b/transaction.go
@@ -7,6 +7,7 @@ import (
 	"sort"
 	"strings"
 	"time"
+	"unicode"
 
 	"github.com/mkobetic/coin/rex"
 )
@@ -141,7 +142,11 @@ func (p *Parser) parseTransaction(fn string) (*Transaction, error) {
 	var notes []string
 	var s *Posting
 	for p.Scan() {
-		match = postingREX.Match(p.Bytes())
+		line := p.Bytes()
+		if len(line) == 0 || !unicode.IsSpace(rune(line[0])) {
+			break
+		}
+		match = postingREX.Match(line)
 		if match == nil {
 			break
 		}
-- 
2.43.0


From 11e379ae1fa0a034d3003dacfd486602363d6068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:42 +0000
Subject: [PATCH 35/40] fix: keep the declaration of an account named
 Unbalanced

---
 coin.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/coin.go b/coin.go
index c1fb42e..1c3dce0 100644
--- a/coin.go
+++ b/coin.go
@@ -178,8 +178,11 @@ func ResolveAccounts() {
 		}
 	}
 	if Unbalanced == nil {
-		Unbalanced = accountFromName("Unbalanced")
-		AccountsByName["Unbalanced"] = Unbalanced
+		Unbalanced = AccountsByName["Unbalanced"]
+		if Unbalanced == nil {
+			Unbalanced = accountFromName("Unbalanced")
+			AccountsByName["Unbalanced"] = Unbalanced
+		}
 	}
 
 	// create parents if missing
-- 
2.43.0


From 34697b7bd4bbec0e70504947a76c30652b06e0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:40 +0000
Subject: [PATCH 36/40] fix: convert amounts into the decimals of the commodity
 they are converted to

---
 commodity.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commodity.go b/commodity.go
index bba6749..960ab45 100644
--- a/commodity.go
+++ b/commodity.go
@@ -209,7 +209,7 @@ func (c *Commodity) convert(amount *Amount, c2 *Commodity, previous []*Commodity
 	prices := c2.Prices[c]
 	if prices != nil {
 		p := prices[0]
-		val := amount.Times(p.Value)
+		val := p.Value.Times(amount)
 		return val, nil
 	}
 	// Otherwise try to follow each c2 price currency
@@ -219,7 +219,7 @@ func (c *Commodity) convert(amount *Amount, c2 *Commodity, previous []*Commodity
 			continue
 		}
 		p := c2.Prices[c3][0]
-		val2 := amount.Times(p.Value)
+		val2 := p.Value.Times(amount)
 		val3, err := c.convert(val2, c3, append(previous, c2))
 		if err == nil {
 			return val3, nil
-- 
2.43.0


From 9ceb22deeaeb0d0e1f61a411af11ebce15625c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:41 +0000
Subject: [PATCH 37/40] fix: print the columns of an aggregated register when
 all its categories are empty

---
 cmd/coin/totals.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/cmd/coin/totals.go b/cmd/coin/totals.go
index af1dd29..825dbb9 100644
--- a/cmd/coin/totals.go
+++ b/cmd/coin/totals.go
@@ -489,9 +489,11 @@ func (ats accountTotals) print(f io.Writer,
 ) {
 	firstCol := ats[order[0]]
 	format := []string{"%*s "}
+	hasPeriod := firstCol.timeReducer != nil
+	hasCategory := firstCol.categoryReducer != nil
 	periodWidth := firstCol.maxPeriodWidth()
 	categoryWidth := firstCol.maxCategoryWidth()
-	if periodWidth > 0 && categoryWidth > 0 {
+	if hasPeriod && hasCategory {
 		format = append(format, " %*s ")
 	}
 	widths := ats.widths(order)
@@ -508,10 +510,10 @@ func (ats accountTotals) print(f io.Writer,
 			format2 = append(format2, " %*s ")
 		}
 		var args []interface{}
-		if periodWidth > 0 {
+		if hasPeriod {
 			args = append(args, periodWidth, "")
 		}
-		if categoryWidth > 0 {
+		if hasCategory {
 			args = append(args, categoryWidth, "")
 		}
 		for i := range widths {
@@ -534,18 +536,18 @@ func (ats accountTotals) print(f io.Writer,
 		}
 		for _, category := range categories {
 			var args []interface{}
-			if periodWidth > 0 {
+			if hasPeriod {
 				tm := period.Time.Format(firstCol.format)
 				args = append(args, periodWidth, tm)
 			}
-			if categoryWidth > 0 {
+			if hasCategory {
 				args = append(args, categoryWidth, category)
 			}
 			for ii, acc := range order {
 				ts := ats[acc]
 				check.If(ts != nil, "nil totals for %s\n", label(acc))
 				t := ts.current
-				if periodWidth > 0 {
+				if hasPeriod {
 					t = ts.all[i]
 					check.If(period.Time.Equal(t.Time), "%s[%d]: %s != %s\n", label(acc), i,
 						t.Time.Format(firstCol.format),
-- 
2.43.0


From c9f0db3cca2a81784a5e6406dd17e614bd75f542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:31 +0000
Subject: [PATCH 38/40] fix: reject an account expression that also matches
 accounts outside the first match

---
 coin.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coin.go b/coin.go
index 1c3dce0..0869b5f 100644
--- a/coin.go
+++ b/coin.go
@@ -306,10 +306,10 @@ func MustFindAccount(pattern string) *Account {
 	if len(as) == 1 {
 		return as[0]
 	}
-	parent := as[0].FullName
+	parent := as[0].FullName + ":"
 	all := true
 	for _, a := range as[1:] {
-		if all = all && strings.HasPrefix(a.FullName, parent); all {
+		if all = strings.HasPrefix(a.FullName, parent); !all {
 			break
 		}
 	}
-- 
2.43.0


From 7f11602d1a0de1f1194089e8331b533e71e2994f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:39 +0000
Subject: [PATCH 39/40] fix: accept the :: form of an account expression in a
 posting

---
 account.go     | 1 +
 transaction.go | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/account.go b/account.go
index 738ae1f..bb7b67b 100644
--- a/account.go
+++ b/account.go
@@ -81,6 +81,7 @@ func (a *Account) Write(w io.Writer, ledger bool) error {
 
 var accountNameREX = rex.MustCompile(`([A-Za-z][\w/_\-]*)`)
 var AccountREX = rex.MustCompile(`(?P<account>%s(:%s)*)`, accountNameREX, accountNameREX)
+var accountRefREX = rex.MustCompile(`(?P<account>%s(::?%s)*)`, accountNameREX, accountNameREX)
 var accountHeadREX = rex.MustCompile(`account\s+%s`, AccountREX)
 var accountBodyREX = rex.MustCompile(``+
 	`(\s+note\s+(?P<note>\S.+))|`+
diff --git a/transaction.go b/transaction.go
index e036da8..6917d08 100644
--- a/transaction.go
+++ b/transaction.go
@@ -122,7 +122,7 @@ var transactionREX = rex.MustCompile(`%s(\s+\((?P<code>\w+)\))?(\s+(?P<descripti
 var postingREX = rex.MustCompile(``+
 	`\s+%s(\s+%s(\s+=\s+%s)?)?(\s*; ?(?P<shortNote>.*))?|`+
 	`\s+; ?(?P<note>.*)`,
-	AccountREX, AmountREX, AmountREX)
+	accountRefREX, AmountREX, AmountREX)
 
 func (p *Parser) parseTransaction(fn string) (*Transaction, error) {
 	match := transactionREX.Match(p.Bytes())
-- 
2.43.0


From b217c0b9277204db2a6938543bcc2eccf6921ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:50 +0000
Subject: [PATCH 40/40] fix: blank lines do not end a group of import rules

---
 rules.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rules.go b/rules.go
index 8587469..3716702 100644
--- a/rules.go
+++ b/rules.go
@@ -200,6 +200,9 @@ func ScanRules(line []byte, s *bufio.Scanner) (*RuleIndex, error) {
 					return ri, s.Err()
 				}
 				line = s.Bytes()
+				if len(bytes.TrimSpace(line)) == 0 {
+					continue
+				}
 				match = bodyRE.FindSubmatch(line)
 				if match == nil {
 					break
-- 
2.43.0

