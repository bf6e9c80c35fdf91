From 1fbd41b2ebc519bfd1a9bf44b893e474c374f3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 01/85] fix: print WINDOW after HAVING so the formatted SELECT
 parses back

---
 parser/format.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser/format.go b/parser/format.go
index 752c746..597ec95 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -2328,10 +2328,6 @@ func (s *SelectQuery) FormatSQL(formatter *Formatter) {
 		formatter.Break()
 		formatter.WriteExpr(s.From)
 	}
-	if s.Window != nil {
-		formatter.Break()
-		formatter.WriteExpr(s.Window)
-	}
 	if s.Prewhere != nil {
 		formatter.Break()
 		formatter.WriteExpr(s.Prewhere)
@@ -2348,6 +2344,10 @@ func (s *SelectQuery) FormatSQL(formatter *Formatter) {
 		formatter.Break()
 		formatter.WriteExpr(s.Having)
 	}
+	if s.Window != nil {
+		formatter.Break()
+		formatter.WriteExpr(s.Window)
+	}
 	if s.OrderBy != nil {
 		formatter.Break()
 		formatter.WriteExpr(s.OrderBy)
-- 
2.43.0


From c1d77e9fa572ee1ddcb6f0c13ae22df55edfbda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:20 +0000
Subject: [PATCH 02/85] fix: keep DISTINCT in the argument list of a parametric
 function

---
 parser/format.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/format.go b/parser/format.go
index 597ec95..fb2dbaf 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -649,6 +649,9 @@ func (o *ClusterClause) FormatSQL(formatter *Formatter) {
 
 func (c *ColumnArgList) FormatSQL(formatter *Formatter) {
 	formatter.WriteByte('(')
+	if c.Distinct {
+		formatter.WriteString("DISTINCT ")
+	}
 	for i, item := range c.Items {
 		if i > 0 {
 			formatter.WriteString(", ")
-- 
2.43.0


From 644fc9d29e41f71d11dc5e410a74a9dd9854bb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:05 +0000
Subject: [PATCH 03/85] fix: print CONSTRAINT and CHECK when formatting a table
 constraint

---
 parser/format.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/format.go b/parser/format.go
index fb2dbaf..dad07a5 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -770,8 +770,9 @@ func (c *CompressionCodec) FormatSQL(formatter *Formatter) {
 }
 
 func (c *ConstraintClause) FormatSQL(formatter *Formatter) {
+	formatter.WriteString("CONSTRAINT ")
 	formatter.WriteExpr(c.Constraint)
-	formatter.WriteByte(whitespace)
+	formatter.WriteString(" CHECK ")
 	formatter.WriteExpr(c.Expr)
 }
 
-- 
2.43.0


From 4bbd6d775eed3384eed6f11828e2b08e318b10e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:14 +0000
Subject: [PATCH 04/85] fix: keep the UUID clause when formatting CREATE LIVE
 VIEW

---
 parser/format.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/format.go b/parser/format.go
index dad07a5..033e40b 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -862,6 +862,11 @@ func (c *CreateLiveView) FormatSQL(formatter *Formatter) {
 	}
 	formatter.WriteExpr(c.Name)
 
+	if c.UUID != nil {
+		formatter.WriteByte(whitespace)
+		formatter.WriteExpr(c.UUID)
+	}
+
 	if c.OnCluster != nil {
 		formatter.Break()
 		formatter.WriteExpr(c.OnCluster)
-- 
2.43.0


From 3cfe21d626d24bf344c8f55ae4c4f41f42a3d97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 05/85] fix: keep FUNCTION when formatting INSERT INTO FUNCTION

---
 parser/format.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/format.go b/parser/format.go
index 033e40b..b3be99e 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -1694,6 +1694,9 @@ func (i *InsertStmt) FormatSQL(formatter *Formatter) {
 	if i.HasTableKeyword {
 		formatter.WriteString("TABLE ")
 	}
+	if _, ok := i.Table.(*FunctionExpr); ok {
+		formatter.WriteString("FUNCTION ")
+	}
 	formatter.WriteExpr(i.Table)
 	if i.ColumnNames != nil {
 		formatter.Break()
-- 
2.43.0


From a362b8a4ce29f3abac65b1a769c1dd7abcc90314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:32 +0000
Subject: [PATCH 06/85] fix: keep REPLICA and DISTRIBUTED when formatting
 SYSTEM SYNC and SYSTEM FLUSH

---
 parser/format.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/format.go b/parser/format.go
index b3be99e..8fd066e 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -2519,6 +2519,7 @@ func (s *SystemFlushExpr) FormatSQL(formatter *Formatter) {
 	if s.Logs {
 		formatter.WriteString("LOGS")
 	} else {
+		formatter.WriteString("DISTRIBUTED ")
 		formatter.WriteExpr(s.Distributed)
 	}
 }
@@ -2543,7 +2544,7 @@ func (s *SystemStmt) FormatSQL(formatter *Formatter) {
 }
 
 func (s *SystemSyncExpr) FormatSQL(formatter *Formatter) {
-	formatter.WriteString("SYNC ")
+	formatter.WriteString("SYNC REPLICA ")
 	formatter.WriteExpr(s.Cluster)
 }
 
-- 
2.43.0


From 51eca7cc9335058fa42387318d41bbcdfd371f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 07/85] fix: separate ON CLUSTER from the first privilege when
 formatting GRANT

---
 parser/format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/format.go b/parser/format.go
index 8fd066e..f3f1211 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -1571,8 +1571,8 @@ func (g *GlobalInOperation) FormatSQL(formatter *Formatter) {
 func (g *GrantPrivilegeStmt) FormatSQL(formatter *Formatter) {
 	formatter.WriteString("GRANT ")
 	if g.OnCluster != nil {
-		formatter.WriteByte(whitespace)
 		formatter.WriteExpr(g.OnCluster)
+		formatter.WriteByte(whitespace)
 	}
 	for i, privilege := range g.Privileges {
 		if i > 0 {
-- 
2.43.0


From 462e1ff05ad9e3dfdd8cd42dbfdd1b132d7f048d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:49 +0000
Subject: [PATCH 08/85] fix: record a SYSTEM privilege in GRANT as SYSTEM, not
 SHOW

---
 parser/parse_system.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index f75f091..fb0000f 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -1136,7 +1136,7 @@ func (p *Parser) parsePrivilegeShow(pos Pos) (*PrivilegeClause, error) {
 }
 
 func (p *Parser) parsePrivilegeSystem(pos Pos) (*PrivilegeClause, error) {
-	keywords := []string{KeywordShow}
+	keywords := []string{KeywordSystem}
 	switch {
 	case p.matchOneOfKeywords(KeywordShutdown, KeywordMerges, KeywordFetches, KeywordSends, KeywordMoves, KeywordCluster):
 		keyword := p.current().String
-- 
2.43.0


From c142b370efa0c37565da67f1000e42442f7297d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:59 +0000
Subject: [PATCH 09/85] fix: accept ALTER TABLE whose last clause is a single
 keyword

---
 parser/parser_alter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser_alter.go b/parser/parser_alter.go
index 9523f01..ba4d77f 100644
--- a/parser/parser_alter.go
+++ b/parser/parser_alter.go
@@ -25,7 +25,7 @@ func (p *Parser) parseAlterTable(pos Pos) (*AlterTable, error) {
 	}
 	alterTable.OnCluster = onCluster
 
-	for !p.lexer.isEOF() {
+	for !p.lexer.isEOF() || p.current() != nil {
 		var alter AlterTableClause
 		switch {
 		case p.matchKeyword(KeywordAdd):
-- 
2.43.0


From 5da594a8cecaa19949e83432ea9c017e8567538e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:30 +0000
Subject: [PATCH 10/85] fix: do not panic when CREATE USER ends right after an
 option keyword

---
 parser/parse_system.go  | 22 +++++++++++++---------
 parser/parser_common.go |  9 +++++++++
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index fb0000f..18a829a 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -570,14 +570,14 @@ func (p *Parser) parseAuthenticationClause(pos Pos) (*AuthenticationClause, erro
 			return nil, err
 		}
 		auth.NotIdentified = true
-		auth.AuthEnd = p.current().End
+		auth.AuthEnd = p.currentEnd()
 		return auth, nil
 	}
 
 	if err := p.expectKeyword(KeywordIdentified); err != nil {
 		return nil, err
 	}
-	auth.AuthEnd = p.current().End
+	auth.AuthEnd = p.currentEnd()
 
 	if p.tryConsumeKeywords(KeywordWith) {
 		if p.matchKeyword(KeywordLdap) {
@@ -594,7 +594,7 @@ func (p *Parser) parseAuthenticationClause(pos Pos) (*AuthenticationClause, erro
 		} else if p.matchKeyword(KeywordKerberos) {
 			_ = p.lexer.consumeToken()
 			auth.IsKerberos = true
-			auth.AuthEnd = p.current().End
+			auth.AuthEnd = p.currentEnd()
 			if p.tryConsumeKeywords(KeywordRealm) {
 				realm, err := p.parseString(p.Pos())
 				if err != nil {
@@ -608,7 +608,7 @@ func (p *Parser) parseAuthenticationClause(pos Pos) (*AuthenticationClause, erro
 			authType := p.current().String
 			_ = p.lexer.consumeToken()
 			auth.AuthType = authType
-			auth.AuthEnd = p.current().End
+			auth.AuthEnd = p.currentEnd()
 
 			if p.tryConsumeKeywords(KeywordBy) {
 				value, err := p.parseString(p.Pos())
@@ -636,7 +636,7 @@ func (p *Parser) parseHostClause(pos Pos) (*HostClause, error) {
 		hostType := p.current().String
 		_ = p.lexer.consumeToken()
 		host.HostType = hostType
-		host.HostEnd = p.current().End
+		host.HostEnd = p.currentEnd()
 	case p.matchOneOfKeywords(KeywordName, KeywordRegexp, KeywordIp, KeywordLike):
 		hostType := p.current().String
 		_ = p.lexer.consumeToken()
@@ -666,7 +666,7 @@ func (p *Parser) parseDefaultRoleClause(pos Pos) (*DefaultRoleClause, error) {
 
 	if p.tryConsumeKeywords(KeywordNone) {
 		defaultRole.None = true
-		defaultRole.DefaultEnd = p.current().End
+		defaultRole.DefaultEnd = p.currentEnd()
 		return defaultRole, nil
 	}
 
@@ -699,10 +699,10 @@ func (p *Parser) parseGranteesClause(pos Pos) (*GranteesClause, error) {
 
 	if p.tryConsumeKeywords(KeywordAny) {
 		grantees.Any = true
-		grantees.GranteesEnd = p.current().End
+		grantees.GranteesEnd = p.currentEnd()
 	} else if p.tryConsumeKeywords(KeywordNone) {
 		grantees.None = true
-		grantees.GranteesEnd = p.current().End
+		grantees.GranteesEnd = p.currentEnd()
 	} else {
 		// Parse list of grantees
 		granteeList := make([]*RoleName, 0)
@@ -811,6 +811,10 @@ func (p *Parser) parseDefaultClause(createUser *CreateUser) (bool, error) {
 		return false, err
 	}
 
+	if nextToken == nil {
+		return false, nil
+	}
+
 	if nextToken.String == KeywordRole {
 		defaultRole, err := p.parseDefaultRoleClause(p.Pos())
 		if err != nil {
@@ -824,7 +828,7 @@ func (p *Parser) parseDefaultClause(createUser *CreateUser) (bool, error) {
 		_ = p.lexer.consumeToken() // consume DATABASE
 		if p.tryConsumeKeywords(KeywordNone) {
 			createUser.DefaultDbNone = true
-			createUser.StatementEnd = p.current().End
+			createUser.StatementEnd = p.currentEnd()
 		} else {
 			db, err := p.parseIdent()
 			if err != nil {
diff --git a/parser/parser_common.go b/parser/parser_common.go
index 7532601..a38c2c0 100644
--- a/parser/parser_common.go
+++ b/parser/parser_common.go
@@ -49,6 +49,15 @@ func (p *Parser) currentTokenString() string {
 	return p.current().String
 }
 
+// currentEnd returns the end of the current token, or the end of the input when
+// there is none, so that it never dereferences a nil token.
+func (p *Parser) currentEnd() Pos {
+	if p.current() == nil {
+		return Pos(p.lexer.offset)
+	}
+	return p.current().End
+}
+
 // cur returns the current lookahead token: the token the parser is looking at
 // but has not consumed yet. It is nil at end of input.
 func (p *Parser) current() *Token {
-- 
2.43.0


From c58085d577d46cddb97d55f822addfcfb2515269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:39 +0000
Subject: [PATCH 11/85] fix: do not panic on SYSTEM RELOAD EMBEDDED at end of
 input

---
 parser/parse_system.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index 18a829a..77768a3 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -83,7 +83,7 @@ func (p *Parser) parseSystemReloadExpr(pos Pos) (*SystemReloadExpr, error) {
 		_ = p.lexer.consumeToken()
 	case p.tryConsumeKeywords(KeywordEmbedded):
 		typ = "EMBEDDED DICTIONARIES"
-		statementEnd = p.current().End
+		statementEnd = p.currentEnd()
 		if err := p.expectKeyword(KeywordDictionaries); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From c7988746f34a272f3855b9635d762f8d0f469313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:47 +0000
Subject: [PATCH 12/85] fix: do not panic on MATERIALIZE INDEX ... IN without a
 partition

---
 parser/parser_alter.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/parser_alter.go b/parser/parser_alter.go
index ba4d77f..b5f3448 100644
--- a/parser/parser_alter.go
+++ b/parser/parser_alter.go
@@ -823,7 +823,9 @@ func (p *Parser) parseAlterTableMaterialize(pos Pos) (AlterTableClause, error) {
 		if err != nil {
 			return nil, err
 		}
-		statementEnd = partition.End()
+		if partition != nil {
+			statementEnd = partition.End()
+		}
 	}
 	if kind == KeywordIndex {
 		return &AlterTableMaterializeIndex{
-- 
2.43.0


From ec0243a86c6f03e1606b8369496c29ba19601732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:56 +0000
Subject: [PATCH 13/85] fix: do not panic on a type argument list that ends
 after a string

---
 parser/parser_column.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index ad53333..fcc9eb1 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -1311,7 +1311,7 @@ func (p *Parser) parseColumnTypeArgs(ident *Ident) (ColumnType, error) { // noli
 				return p.parseComplexType(ident, p.Pos())
 			}
 		case p.matchTokenKind(TokenKindString):
-			if peekToken, err := p.lexer.peekToken(); err == nil && peekToken.Kind == TokenKindSingleEQ {
+			if peekToken, err := p.lexer.peekToken(); err == nil && peekToken != nil && peekToken.Kind == TokenKindSingleEQ {
 				// enum values
 				return p.parseEnumType(ident, p.Pos())
 			}
-- 
2.43.0


From 2103a31f7f0394cc0bc8438fde2aeee51337fc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:42 +0000
Subject: [PATCH 14/85] fix: do not panic on an ORDER BY item that ends with AS

---
 parser/parser_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index a29fd45..9936ddf 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1033,7 +1033,7 @@ func (p *Parser) parseOrderExpr(pos Pos) (*OrderExpr, error) {
 	var alias *Ident
 	if p.matchKeyword(KeywordAs) {
 		// It should be a subquery instead of an order by alias if the `AS` is followed by `SELECT` keyword.
-		if nextToken, err := p.lexer.peekToken(); err == nil && nextToken.ToString() == KeywordSelect {
+		if nextToken, err := p.lexer.peekToken(); err == nil && nextToken != nil && nextToken.ToString() == KeywordSelect {
 			return &OrderExpr{
 				OrderPos: pos,
 				Expr:     columnExpr,
-- 
2.43.0


From cfaeb048a72409343779f6fc6d1c2ccfd03fc96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:50 +0000
Subject: [PATCH 15/85] fix: do not drop a last statement made of a single
 token

---
 parser/parser_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index 9936ddf..8a7aa3c 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1551,7 +1551,7 @@ func (p *Parser) ParseStmts() ([]Expr, error) {
 		if err := p.lexer.consumeToken(); err != nil {
 			return nil, p.wrapError(err)
 		}
-		if p.lexer.isEOF() {
+		if p.lexer.isEOF() && p.current() == nil {
 			break
 		}
 		if p.matchTokenKind(";") {
-- 
2.43.0


From 0d42d3db5367e77e497a1e1d4e1655f839f68b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:58 +0000
Subject: [PATCH 16/85] fix: report an unclosed comment or quoted identifier
 after a complete statement

---
 parser/lexer.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 96df452..91c84d9 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -216,7 +216,10 @@ func (l *Lexer) consumeIdent(_ Pos) error {
 		}
 		if !l.peekOk(i) || (quoteType == BackTicks && l.peekN(i) != '`') ||
 			(quoteType == DoubleQuote && l.peekN(i) != '"') {
-			return fmt.Errorf("unclosed quoted identifier: %s", l.slice(0, i))
+			err := fmt.Errorf("unclosed quoted identifier: %s", l.slice(0, i))
+			// stay on the opening quote, so that the next token fails as well
+			l.skipN(-1)
+			return err
 		}
 	}
 	slice := l.slice(0, i)
@@ -261,7 +264,8 @@ func (l *Lexer) consumeMultiLineComment() error {
 		}
 		i++
 	}
-	l.skipN(i)
+	// stay on the opening of the comment, so that the next token fails as well
+	l.skipN(-2)
 	return errors.New("unclosed multi-line comment")
 }
 
-- 
2.43.0


From c4f8c0ce3404a73de04d5339cd6c80986a31be86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:06 +0000
Subject: [PATCH 17/85] fix: restore the lexer when peeking at the next token
 fails

---
 parser/lexer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index 91c84d9..96c6d09 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -340,6 +340,7 @@ func (l *Lexer) skipComments() error {
 func (l *Lexer) peekToken() (*Token, error) {
 	savedState := l.saveState()
 	if err := l.consumeToken(); err != nil {
+		l.restoreState(savedState)
 		return nil, err
 	}
 	token := l.currentToken
-- 
2.43.0


From e25cba28aa71221cbe76c786138c102905619947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:40 +0000
Subject: [PATCH 18/85] fix: read COMMENT after a select item as the clause,
 not as an alias

---
 parser/parser_column.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index fcc9eb1..a1f9ab4 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -555,6 +555,12 @@ func (p *Parser) isSelectItemTerminatorKeyword() bool {
 	return p.matchClauseStarterKeyword()
 }
 
+// matchCommentClause reports whether the current token starts a COMMENT 'text'
+// clause, as it may follow the query of a CREATE statement.
+func (p *Parser) matchCommentClause() bool {
+	return p.matchKeyword(KeywordComment) && p.peekTokenKind(TokenKindString)
+}
+
 func (p *Parser) parseColumnExpr(pos Pos) (Expr, error) { //nolint:funlen
 	// Should parse the keyword as an identifier if the keyword is followed by
 	// `,`, `AS`, another clause-starter keyword, or end-of-statement (EOF or
@@ -1205,7 +1211,7 @@ func (p *Parser) parseSelectItem() (*SelectItem, error) {
 		if err != nil {
 			return nil, err
 		}
-	case p.matchTokenKind(TokenKindIdent) && !p.isSelectItemTerminatorKeyword():
+	case p.matchTokenKind(TokenKindIdent) && !p.isSelectItemTerminatorKeyword() && !p.matchCommentClause():
 		// A bare alias can be a normal identifier or non-reserved keyword; a
 		// reserved keyword here starts the next clause (e.g. `SELECT a FROM ...`).
 		alias, err = p.parseIdent()
-- 
2.43.0


From 91672cdfe720123e69920eed1958f890fdce506e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:26 +0000
Subject: [PATCH 19/85] fix: do not panic on a function call as a dictionary
 source argument

---
 parser/parser_table.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index 8a7aa3c..4bdcdcc 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -2384,12 +2384,19 @@ func (p *Parser) parseDictionaryArgExpr(pos Pos) (*DictionaryArgExpr, error) {
 		}
 		// Check if it's followed by optional parentheses
 		if p.matchTokenKind(TokenKindLParen) {
+			lParenPos := p.Pos()
 			_ = p.lexer.consumeToken() // consume (
+			rParenPos := p.Pos()
 			if err := p.expectTokenKind(TokenKindRParen); err != nil {
 				return nil, err
 			}
 			value = &FunctionExpr{
 				Name: ident,
+				Params: &ParamExprList{
+					LeftParenPos:  lParenPos,
+					RightParenPos: rParenPos,
+					Items:         &ColumnExprList{ListPos: rParenPos, ListEnd: rParenPos, Items: make([]Expr, 0)},
+				},
 			}
 		} else {
 			value = ident
-- 
2.43.0


From 0a3da98dd1f33342d54b7352312e9134666c4e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:36 +0000
Subject: [PATCH 20/85] fix: do not panic on a role setting without a value

---
 parser/ast.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/ast.go b/parser/ast.go
index b6eb41f..1643079 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -1655,6 +1655,9 @@ func (s *SettingPair) Pos() Pos {
 }
 
 func (s *SettingPair) End() Pos {
+	if s.Value == nil {
+		return s.Name.NameEnd
+	}
 	return s.Value.End()
 }
 
-- 
2.43.0


From c6126f8b75214a1ab872fed5cb47a27ac3a86325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:44 +0000
Subject: [PATCH 21/85] fix: do not panic on PARTITION ALL

---
 parser/ast.go          | 4 ++++
 parser/parser_alter.go | 4 +++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/parser/ast.go b/parser/ast.go
index 1643079..cb2ac01 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -2316,6 +2316,7 @@ type PartitionClause struct {
 	Expr         Expr
 	ID           *StringLiteral
 	All          bool
+	allEnd       Pos
 }
 
 func (p *PartitionClause) Pos() Pos {
@@ -2326,6 +2327,9 @@ func (p *PartitionClause) End() Pos {
 	if p.ID != nil {
 		return p.ID.LiteralEnd
 	}
+	if p.Expr == nil {
+		return p.allEnd
+	}
 	return p.Expr.End()
 }
 
diff --git a/parser/parser_alter.go b/parser/parser_alter.go
index b5f3448..70f4940 100644
--- a/parser/parser_alter.go
+++ b/parser/parser_alter.go
@@ -375,8 +375,10 @@ func (p *Parser) parsePartitionClause(pos Pos) (*PartitionClause, error) {
 			return nil, err
 		}
 		partition.ID = id
-	} else if p.tryConsumeKeywords(KeywordAll) {
+	} else if p.matchKeyword(KeywordAll) {
 		partition.All = true
+		partition.allEnd = p.End()
+		_ = p.lexer.consumeToken()
 	} else {
 		expr, err := p.parseExpr(p.Pos())
 		if err != nil {
-- 
2.43.0


From c9d46fe9adc3756b87fb9db9e907a515d30ebac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:53 +0000
Subject: [PATCH 22/85] fix: print FROM before SYNC in DROP USER so the
 formatted statement parses back

---
 parser/format.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/format.go b/parser/format.go
index f3f1211..0c75093 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -1447,13 +1447,13 @@ func (d *DropUserOrRole) FormatSQL(formatter *Formatter) {
 		}
 		formatter.WriteExpr(name)
 	}
-	if len(d.Modifier) != 0 {
-		formatter.WriteString(" " + d.Modifier)
-	}
 	if d.From != nil {
 		formatter.WriteString(" FROM ")
 		formatter.WriteExpr(d.From)
 	}
+	if len(d.Modifier) != 0 {
+		formatter.WriteString(" " + d.Modifier)
+	}
 }
 
 func (e *EngineExpr) FormatSQL(formatter *Formatter) {
-- 
2.43.0


From bb029ada3e7018c7560b4c696f34691c50746e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:02 +0000
Subject: [PATCH 23/85] fix: print IF NOT EXISTS after INDEX in ALTER TABLE ADD
 INDEX

---
 parser/format.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parser/format.go b/parser/format.go
index 0c75093..aecb9ff 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -249,11 +249,11 @@ func (a *AlterTableAddColumn) FormatSQL(formatter *Formatter) {
 }
 
 func (a *AlterTableAddIndex) FormatSQL(formatter *Formatter) {
-	formatter.WriteString("ADD ")
+	formatter.WriteString("ADD INDEX ")
 	if a.IfNotExists {
 		formatter.WriteString("IF NOT EXISTS ")
 	}
-	formatter.WriteExpr(a.Index)
+	a.Index.formatDefinition(formatter)
 	if a.After != nil {
 		formatter.WriteString(" AFTER ")
 		formatter.WriteExpr(a.After)
@@ -2639,6 +2639,11 @@ func (t *TableIdentifier) FormatSQL(formatter *Formatter) {
 func (a *TableIndex) FormatSQL(formatter *Formatter) {
 	formatter.WriteString("INDEX")
 	formatter.WriteByte(whitespace)
+	a.formatDefinition(formatter)
+}
+
+// formatDefinition prints the index without the leading INDEX keyword.
+func (a *TableIndex) formatDefinition(formatter *Formatter) {
 	formatter.WriteExpr(a.Name)
 	// Add space only if column expression doesn't start with '('
 	columnExprStr := Format(a.ColumnExpr)
-- 
2.43.0


From e80fdf46935d9dda4e03052fb52e1ba9fbb7018c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:10 +0000
Subject: [PATCH 24/85] fix: accept AS SELECT right after PARTITION BY in
 CREATE statements

---
 parser/parser_table.go | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index 4bdcdcc..b2530f1 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -922,7 +922,7 @@ func (p *Parser) tryParsePartitionByClause(pos Pos) (*PartitionByClause, error)
 	}
 
 	// parse partition key list
-	columnExpr, err := p.parseColumnExprListWithLParen(p.Pos())
+	columnExpr, err := p.parsePartitionKeyList(p.Pos())
 	if err != nil {
 		return nil, err
 	}
@@ -932,6 +932,37 @@ func (p *Parser) tryParsePartitionByClause(pos Pos) (*PartitionByClause, error)
 	}, nil
 }
 
+// parsePartitionKeyList parses the keys of a table's PARTITION BY clause. Unlike
+// in other expression lists, AS followed by SELECT is not an alias there but
+// starts the query of CREATE ... AS SELECT.
+func (p *Parser) parsePartitionKeyList(pos Pos) (*ColumnExprList, error) {
+	list := &ColumnExprList{ListPos: pos, ListEnd: pos}
+	list.HasDistinct = p.tryConsumeKeywords(KeywordDistinct)
+	list.Items = make([]Expr, 0)
+	for !p.lexer.isEOF() || p.current() != nil {
+		if p.matchTokenKind(TokenKindRParen) {
+			break
+		}
+		expr, err := p.parseExpr(p.Pos())
+		if err != nil {
+			return nil, err
+		}
+		item := &ColumnExpr{Expr: expr}
+		if p.matchKeyword(KeywordAs) && !p.peekKeyword(KeywordSelect) {
+			_ = p.lexer.consumeToken()
+			if item.Alias, err = p.parseAnyKeyword(); err != nil {
+				return nil, err
+			}
+		}
+		list.Items = append(list.Items, item)
+		list.ListEnd = item.End()
+		if p.tryConsumeTokenKind(TokenKindComma) == nil {
+			break
+		}
+	}
+	return list, nil
+}
+
 func (p *Parser) tryParsePrimaryKeyClause(pos Pos) (*PrimaryKeyClause, error) {
 	if !p.tryConsumeKeywords(KeywordPrimary) {
 		return nil, nil // nolint
-- 
2.43.0


From 7b76a4e9b2132c6eb5fab819a214c75bccfaab4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:13 +0000
Subject: [PATCH 25/85] fix: close an empty or comma-terminated INSERT list
 with a single parenthesis

---
 parser/parser_table.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index b2530f1..0cddbbe 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1849,7 +1849,7 @@ func (p *Parser) parseColumnNamesExpr(pos Pos) (*ColumnNamesExpr, error) {
 	}
 
 	var columnNames []NestedIdentifier
-	for !p.lexer.isEOF() && p.tryConsumeTokenKind(TokenKindRParen) == nil {
+	for !p.lexer.isEOF() && !p.matchTokenKind(TokenKindRParen) {
 		name, err := p.ParseNestedIdentifier(p.Pos())
 		if err != nil {
 			return nil, err
@@ -1907,7 +1907,7 @@ func (p *Parser) parseAssignmentValues(pos Pos) (*AssignmentValues, error) {
 	var value Expr
 	var err error
 	values := make([]Expr, 0)
-	for !p.lexer.isEOF() && p.tryConsumeTokenKind(TokenKindRParen) == nil {
+	for !p.lexer.isEOF() && !p.matchTokenKind(TokenKindRParen) {
 		switch {
 		case p.matchTokenKind(TokenKindLParen):
 			value, err = p.parseAssignmentValues(p.Pos())
-- 
2.43.0


From f34602b5e6f0b5726734f8067a0f03455c9a3e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:21 +0000
Subject: [PATCH 26/85] fix: print a column COMMENT before CODEC and TTL so
 that it parses back

---
 parser/format.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser/format.go b/parser/format.go
index aecb9ff..d84f517 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -684,6 +684,10 @@ func (c *ColumnDef) FormatSQL(formatter *Formatter) {
 		formatter.WriteString(" ALIAS ")
 		formatter.WriteExpr(c.AliasExpr)
 	}
+	if c.Comment != nil {
+		formatter.WriteString(" COMMENT ")
+		formatter.WriteExpr(c.Comment)
+	}
 	if c.Codec != nil {
 		formatter.WriteByte(whitespace)
 		formatter.WriteExpr(c.Codec)
@@ -692,10 +696,6 @@ func (c *ColumnDef) FormatSQL(formatter *Formatter) {
 		formatter.WriteByte(whitespace)
 		formatter.WriteExpr(c.TTL)
 	}
-	if c.Comment != nil {
-		formatter.WriteString(" COMMENT ")
-		formatter.WriteExpr(c.Comment)
-	}
 }
 
 func (c *ColumnExpr) FormatSQL(formatter *Formatter) {
-- 
2.43.0


From 27ab6905ef6f390a4ca120e88d38edbdd262fd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:29 +0000
Subject: [PATCH 27/85] fix: reject an empty role setting instead of panicking

---
 parser/parse_system.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index 77768a3..9abc984 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -474,6 +474,9 @@ func (p *Parser) parseRoleSetting(_ Pos) (*RoleSetting, error) {
 		}
 
 	}
+	if len(pairs) == 0 {
+		return nil, fmt.Errorf("expected a role setting, but got %q", p.currentTokenString())
+	}
 	return &RoleSetting{
 		SettingPairs: pairs,
 	}, nil
-- 
2.43.0


From 0e502b11288f6335ae2c10aae8508419680cb2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:41 +0000
Subject: [PATCH 28/85] fix: accept expressions that start with a bracket in
 INSERT VALUES

---
 parser/parser_table.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index 0cddbbe..7b5382e 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1908,6 +1908,8 @@ func (p *Parser) parseAssignmentValues(pos Pos) (*AssignmentValues, error) {
 	var err error
 	values := make([]Expr, 0)
 	for !p.lexer.isEOF() && !p.matchTokenKind(TokenKindRParen) {
+		savedState := p.lexer.saveState()
+		isExpr := false
 		switch {
 		case p.matchTokenKind(TokenKindLParen):
 			value, err = p.parseAssignmentValues(p.Pos())
@@ -1915,6 +1917,13 @@ func (p *Parser) parseAssignmentValues(pos Pos) (*AssignmentValues, error) {
 			// placeholder with type, e.g. {a :Int32}, {b :DateTime(6)}
 			value, err = p.parseTypedPlaceholder(p.Pos())
 		default:
+			isExpr = true
+			value, err = p.parseExpr(p.Pos())
+		}
+		// a value may also be an expression that starts with a bracket, e.g.
+		// (1, 2).1 or {'k': 1}
+		if !isExpr && (err != nil || !p.matchTokenKind(TokenKindComma) && !p.matchTokenKind(TokenKindRParen)) {
+			p.lexer.restoreState(savedState)
 			value, err = p.parseExpr(p.Pos())
 		}
 		if err != nil {
-- 
2.43.0


From b3ef9d492dd20d612f0733b77b832ab6abe7828f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:11 +0000
Subject: [PATCH 29/85] fix: do not indent the lines of a string or quoted
 identifier when beautifying

---
 parser/format.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/parser/format.go b/parser/format.go
index d84f517..9a41a7b 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -60,6 +60,12 @@ func (f *Formatter) WriteString(s string) {
 	}
 }
 
+// writeVerbatim writes the content of a quoted token as it is: a line break
+// inside it is part of the token, so no indentation may follow it.
+func (f *Formatter) writeVerbatim(s string) {
+	f.builder.WriteString(s)
+}
+
 func (f *Formatter) WriteByte(b byte) {
 	if f.mode == FormatModeBeautify {
 		if b == newline {
@@ -1668,15 +1674,15 @@ func (i *Ident) FormatSQL(formatter *Formatter) {
 	switch i.QuoteType {
 	case BackTicks:
 		formatter.WriteByte('`')
-		formatter.WriteString(i.Name)
+		formatter.writeVerbatim(i.Name)
 		formatter.WriteByte('`')
 	case DoubleQuote:
 		formatter.WriteByte('"')
-		formatter.WriteString(i.Name)
+		formatter.writeVerbatim(i.Name)
 		formatter.WriteByte('"')
 	case SingleQuote:
 		formatter.WriteByte('\'')
-		formatter.WriteString(i.Name)
+		formatter.writeVerbatim(i.Name)
 		formatter.WriteByte('\'')
 	default:
 		formatter.WriteString(i.Name)
@@ -2485,7 +2491,7 @@ func (s *ShowStmt) FormatSQL(formatter *Formatter) {
 
 func (s *StringLiteral) FormatSQL(formatter *Formatter) {
 	formatter.WriteByte('\'')
-	formatter.WriteString(s.Literal)
+	formatter.writeVerbatim(s.Literal)
 	formatter.WriteByte('\'')
 }
 
-- 
2.43.0


From 2013ab714716a813b51eb20f217af71d67aea4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:11 +0000
Subject: [PATCH 30/85] fix: CHECK TABLE without PARTITION has an end

---
 parser/ast.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/ast.go b/parser/ast.go
index cb2ac01..90275d1 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -6231,7 +6231,10 @@ func (c *CheckStmt) Pos() Pos {
 }
 
 func (c *CheckStmt) End() Pos {
-	return c.Partition.End()
+	if c.Partition != nil {
+		return c.Partition.End()
+	}
+	return c.Table.End()
 }
 
 func (c *CheckStmt) Accept(visitor ASTVisitor) error {
-- 
2.43.0


From 8838de204e2dce37dcc39cf2d3efa7aef88b4a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:29 +0000
Subject: [PATCH 31/85] fix: SELECT ON (...) without DISTINCT is no DISTINCT ON
 clause

---
 parser/parser_query.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parser/parser_query.go b/parser/parser_query.go
index 6b5e48c..7216959 100644
--- a/parser/parser_query.go
+++ b/parser/parser_query.go
@@ -1107,9 +1107,12 @@ func (p *Parser) parseSelectStmt(pos Pos) (*SelectQuery, error) { // nolint: fun
 	}
 	// DISTINCT?
 	hasDistinct := p.tryConsumeKeywords(KeywordDistinct)
-	distinctOn, err := p.tryParseDistinctOn(p.Pos())
-	if err != nil {
-		return nil, err
+	var distinctOn *DistinctOn
+	if hasDistinct {
+		distinctOn, err = p.tryParseDistinctOn(p.Pos())
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	top, err := p.tryParseTopClause(p.Pos())
-- 
2.43.0


From bdf84d7f13b078540961dc432619389a2fdf54ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:38 +0000
Subject: [PATCH 32/85] fix: DISTINCT in an array literal is printed

---
 parser/format.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/format.go b/parser/format.go
index 9a41a7b..9be9dfb 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -524,6 +524,9 @@ func (a *AlterTableUpdate) FormatSQL(formatter *Formatter) {
 
 func (a *ArrayParamList) FormatSQL(formatter *Formatter) {
 	formatter.WriteString("[")
+	if a.Items.HasDistinct {
+		formatter.WriteString("DISTINCT ")
+	}
 	for i, item := range a.Items.Items {
 		if i > 0 {
 			formatter.WriteString(", ")
-- 
2.43.0


From 1d88087ed61c94871f058809366836a682a1fd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:47 +0000
Subject: [PATCH 33/85] fix: keep a number and a following dot apart

---
 parser/format.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/parser/format.go b/parser/format.go
index 9be9dfb..da0a74c 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -1694,10 +1694,27 @@ func (i *Ident) FormatSQL(formatter *Formatter) {
 
 func (i *IndexOperation) FormatSQL(formatter *Formatter) {
 	formatter.WriteExpr(i.Object)
-	formatter.WriteString(string(i.Operation))
+	if endsInNumber(i.Object) {
+		// without the blanks the dot would become part of the number
+		formatter.WriteByte(whitespace)
+		formatter.WriteString(string(i.Operation))
+		formatter.WriteByte(whitespace)
+	} else {
+		formatter.WriteString(string(i.Operation))
+	}
 	formatter.WriteExpr(i.Index)
 }
 
+func endsInNumber(expr Expr) bool {
+	switch e := expr.(type) {
+	case *NumberLiteral:
+		return true
+	case *IndexOperation:
+		return endsInNumber(e.Index)
+	}
+	return false
+}
+
 func (i *InsertStmt) FormatSQL(formatter *Formatter) {
 	formatter.WriteString("INSERT INTO ")
 	if i.HasTableKeyword {
-- 
2.43.0


From 1a4b7dbf1d9b8270a723fabfc7fd1e66c6ae2d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:56 +0000
Subject: [PATCH 34/85] fix: print an empty list of columns

---
 parser/format.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/format.go b/parser/format.go
index da0a74c..b6b0dca 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -2712,6 +2712,8 @@ func (t *TableSchemaClause) FormatSQL(formatter *Formatter) {
 		formatter.Dedent()
 		formatter.NewLine()
 		formatter.WriteByte(')')
+	} else if t.AliasTable == nil && t.TableFunction == nil {
+		formatter.WriteString("()")
 	}
 	if t.AliasTable != nil {
 		formatter.WriteString(" AS ")
-- 
2.43.0


From 781028458a84a1e72828f2d1e2d4f5691c0f5518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:05 +0000
Subject: [PATCH 35/85] fix: reject a SELECT without select items at the end of
 input

---
 parser/parser_column.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index a1f9ab4..e74e04d 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -766,7 +766,7 @@ func (p *Parser) parseColumnExprListWithTerm(term TokenKind, pos Pos) (*ColumnEx
 
 func (p *Parser) parseSelectItems() ([]*SelectItem, error) {
 	selectItems := make([]*SelectItem, 0)
-	for !p.lexer.isEOF() || p.current() != nil {
+	for len(selectItems) == 0 || !p.lexer.isEOF() || p.current() != nil {
 		selectItem, err := p.parseSelectItem()
 		if err != nil {
 			return nil, err
-- 
2.43.0


From b27ee9c6872d3927d151b2f5a2bc41ef853df805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:14 +0000
Subject: [PATCH 36/85] fix: SHOW DATABASES NOT must be followed by LIKE or
 ILIKE

---
 parser/parser_table.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index 7b5382e..298d795 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1682,6 +1682,8 @@ func (p *Parser) parseShowStmt(pos Pos) (*ShowStmt, error) {
 				return nil, err
 			}
 			stmt.LikePattern = pattern
+		} else if stmt.NotLike {
+			return nil, fmt.Errorf("expected LIKE or ILIKE, but got %s", p.currentTokenKind())
 		}
 
 		// Parse [LIMIT <N>]
-- 
2.43.0


From 3ec303dc9258c5cb072f50a62d215255f4734bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:12 +0000
Subject: [PATCH 37/85] fix: reject a column that is both NULL and NOT NULL

---
 parser/parser_table.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index 298d795..33c6cfd 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -686,12 +686,11 @@ func (p *Parser) parseTableColumnExpr(pos Pos) (*ColumnDef, error) {
 		columnEnd = columnType.End()
 	}
 
+	var notNull *NotNullLiteral
 	nullable := p.tryParseNull(p.Pos())
 	if nullable != nil {
 		columnEnd = nullable.End()
-	}
-	notNull, err := p.tryParseNotNull(p.Pos())
-	if err != nil {
+	} else if notNull, err = p.tryParseNotNull(p.Pos()); err != nil {
 		return nil, err
 	}
 	if notNull != nil {
-- 
2.43.0


From 816d2384796a0be3d08783e1a51952b27817e67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:57 +0000
Subject: [PATCH 38/85] fix: keep the tables after JOIN ... USING (a), t apart
 from the column list

---
 parser/format.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/parser/format.go b/parser/format.go
index b6b0dca..322529f 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -1929,7 +1929,15 @@ func writeJoinSQL(formatter *Formatter, expr Expr) {
 		formatter.WriteExpr(joinExpr.Left)
 		if joinExpr.Constraints != nil {
 			formatter.WriteByte(whitespace)
-			formatter.WriteExpr(joinExpr.Constraints)
+			using, ok := joinExpr.Constraints.(*UsingClause)
+			if ok && startsWithComma(joinExpr.Right) {
+				// the next table must not become part of the column list
+				formatter.WriteString("USING (")
+				formatter.WriteExpr(using.Using)
+				formatter.WriteByte(')')
+			} else {
+				formatter.WriteExpr(joinExpr.Constraints)
+			}
 		}
 		formatter.Dedent()
 	}
@@ -1938,6 +1946,15 @@ func writeJoinSQL(formatter *Formatter, expr Expr) {
 	}
 }
 
+// startsWithComma reports whether writeJoinSQL writes a comma for expr first.
+func startsWithComma(expr Expr) bool {
+	joinExpr, ok := expr.(*JoinExpr)
+	if !ok {
+		return expr != nil
+	}
+	return len(joinExpr.Modifiers) == 0
+}
+
 func (j *JoinTableExpr) FormatSQL(formatter *Formatter) {
 	formatter.WriteExpr(j.Table)
 	if j.SampleRatio != nil {
-- 
2.43.0


From f2ceaf3f1af78d38ca87525db7a38786ca3d2019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:11 +0000
Subject: [PATCH 39/85] fix: visit the map literal's own keys instead of copies

---
 parser/ast.go  | 6 +++---
 parser/walk.go | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/parser/ast.go b/parser/ast.go
index 90275d1..7543267 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -2906,11 +2906,11 @@ func (m *MapLiteral) End() Pos {
 func (m *MapLiteral) Accept(visitor ASTVisitor) error {
 	visitor.Enter(m)
 	defer visitor.Leave(m)
-	for _, kv := range m.KeyValues {
-		if err := kv.Key.Accept(visitor); err != nil {
+	for i := range m.KeyValues {
+		if err := m.KeyValues[i].Key.Accept(visitor); err != nil {
 			return err
 		}
-		if err := kv.Value.Accept(visitor); err != nil {
+		if err := m.KeyValues[i].Value.Accept(visitor); err != nil {
 			return err
 		}
 	}
diff --git a/parser/walk.go b/parser/walk.go
index e129a35..320271b 100644
--- a/parser/walk.go
+++ b/parser/walk.go
@@ -1382,11 +1382,11 @@ func Walk(node Expr, fn WalkFunc) bool {
 			return false
 		}
 	case *MapLiteral:
-		for _, kv := range n.KeyValues {
-			if !Walk(&kv.Key, fn) {
+		for i := range n.KeyValues {
+			if !Walk(&n.KeyValues[i].Key, fn) {
 				return false
 			}
-			if !Walk(kv.Value, fn) {
+			if !Walk(n.KeyValues[i].Value, fn) {
 				return false
 			}
 		}
-- 
2.43.0


From b53108f5e2acfbcc5ccd59b400092c53b766e841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:19 +0000
Subject: [PATCH 40/85] fix: visit the pairs of a RENAME statement

---
 parser/ast.go  | 5 +----
 parser/walk.go | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/parser/ast.go b/parser/ast.go
index 7543267..ad4606d 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -6299,10 +6299,7 @@ func (r *RenameStmt) Accept(visitor ASTVisitor) error {
 	visitor.Enter(r)
 	defer visitor.Leave(r)
 	for _, pair := range r.TargetPairList {
-		if err := pair.Old.Accept(visitor); err != nil {
-			return err
-		}
-		if err := pair.New.Accept(visitor); err != nil {
+		if err := pair.Accept(visitor); err != nil {
 			return err
 		}
 	}
diff --git a/parser/walk.go b/parser/walk.go
index 320271b..2731bd8 100644
--- a/parser/walk.go
+++ b/parser/walk.go
@@ -593,10 +593,7 @@ func Walk(node Expr, fn WalkFunc) bool {
 		}
 	case *RenameStmt:
 		for _, pair := range n.TargetPairList {
-			if !Walk(pair.Old, fn) {
-				return false
-			}
-			if !Walk(pair.New, fn) {
+			if !Walk(pair, fn) {
 				return false
 			}
 		}
-- 
2.43.0


From 59d65aa2d54bcdbf732ec1811f4fe3505b3b217f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:20 +0000
Subject: [PATCH 41/85] fix: judge the end of input by the current token, not
 by the blanks behind it

---
 parser/parser_column.go | 28 ++++++++++++++--------------
 parser/parser_table.go  | 18 +++++++++---------
 2 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index e74e04d..d45ed06 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -353,7 +353,7 @@ func (p *Parser) parseColumnExtractExpr(pos Pos) (*ExtractExpr, error) {
 	}
 
 	parameters := make([]Expr, 0)
-	for !p.lexer.isEOF() {
+	for p.current() != nil {
 		expr, err := p.parseExpr(p.Pos())
 		if err != nil {
 			return nil, err
@@ -425,7 +425,7 @@ func (p *Parser) parseUnaryExpr(pos Pos) (Expr, error) {
 }
 
 func (p *Parser) peekTokenKind(kind TokenKind) bool {
-	if p.lexer.isEOF() {
+	if p.current() == nil {
 		return false
 	}
 	token, err := p.lexer.peekToken()
@@ -436,7 +436,7 @@ func (p *Parser) peekTokenKind(kind TokenKind) bool {
 }
 
 func (p *Parser) peekKeyword(keyword string) bool {
-	if p.lexer.isEOF() {
+	if p.current() == nil {
 		return false
 	}
 	token, err := p.lexer.peekToken()
@@ -838,7 +838,7 @@ func (p *Parser) parseColumnArgList(pos Pos) (*ColumnArgList, error) {
 	distinct := p.tryConsumeKeywords(KeywordDistinct)
 
 	var items []Expr
-	for !p.lexer.isEOF() && !p.matchTokenKind(TokenKindRParen) {
+	for p.current() != nil && !p.matchTokenKind(TokenKindRParen) {
 		item, err := p.parseExpr(p.Pos())
 		if err != nil {
 			return nil, err
@@ -982,7 +982,7 @@ func (p *Parser) parseKeywordArgFunctionParams(pos Pos, form keywordArgForm) (*P
 	// index runs across the list instead of resetting per item.
 	slot := 0
 	usedSeparator, usedComma := false, false
-	for !p.lexer.isEOF() && !p.matchTokenKind(TokenKindRParen) {
+	for p.current() != nil && !p.matchTokenKind(TokenKindRParen) {
 		item, consumed, err := p.parseKeywordArgItem(form, slot, !(form.ClosedKeywordForm && usedComma))
 		if err != nil {
 			return nil, err
@@ -1083,7 +1083,7 @@ func (p *Parser) parseMapLiteral(pos Pos) (*MapLiteral, error) {
 	}
 
 	keyValues := make([]KeyValue, 0)
-	for !p.lexer.isEOF() && !p.matchTokenKind(TokenKindRBrace) {
+	for p.current() != nil && !p.matchTokenKind(TokenKindRBrace) {
 		key, err := p.parseString(p.Pos())
 		if err != nil {
 			return nil, err
@@ -1353,7 +1353,7 @@ func (p *Parser) parseColumnPropertyType(_ Pos) (Expr, error) {
 
 func (p *Parser) parseComplexType(name *Ident, pos Pos) (*ComplexType, error) {
 	subTypes := make([]ColumnType, 0)
-	for !p.lexer.isEOF() && !p.matchTokenKind(TokenKindRParen) {
+	for p.current() != nil && !p.matchTokenKind(TokenKindRParen) {
 		subExpr, err := p.parseColumnType(p.Pos())
 		if err != nil {
 			return nil, err
@@ -1381,7 +1381,7 @@ func (p *Parser) parseEnumType(name *Ident, pos Pos) (*EnumType, error) {
 		ListPos: pos,
 		Values:  make([]EnumValue, 0),
 	}
-	for !p.lexer.isEOF() && !p.matchTokenKind(TokenKindRParen) {
+	for p.current() != nil && !p.matchTokenKind(TokenKindRParen) {
 		enumValue, err := p.parseEnumValueExpr(p.Pos())
 		if err != nil {
 			return nil, err
@@ -1410,7 +1410,7 @@ func (p *Parser) parseColumnTypeWithParams(name *Ident, pos Pos) (*TypeWithParam
 		return nil, err
 	}
 	params = append(params, param)
-	for !p.lexer.isEOF() && p.tryConsumeTokenKind(TokenKindComma) != nil {
+	for p.current() != nil && p.tryConsumeTokenKind(TokenKindComma) != nil {
 		size, err := p.parseLiteral(p.Pos())
 		if err != nil {
 			return nil, err
@@ -1438,7 +1438,7 @@ func (p *Parser) parseJSONPath() (*JSONPath, error) {
 	}
 	idents = append(idents, ident)
 
-	for !p.lexer.isEOF() && p.tryConsumeTokenKind(TokenKindDot) != nil {
+	for p.current() != nil && p.tryConsumeTokenKind(TokenKindDot) != nil {
 		ident, err := p.parseAnyKeyword()
 		if err != nil {
 			return nil, err
@@ -1554,7 +1554,7 @@ func (p *Parser) parseJSONType(name *Ident, pos Pos) (*JSONType, error) {
 	}
 
 	options := make([]*JSONOption, 0)
-	for !p.lexer.isEOF() && !p.matchTokenKind(TokenKindRParen) {
+	for p.current() != nil && !p.matchTokenKind(TokenKindRParen) {
 		option, err := p.parseJSONOption()
 		if err != nil {
 			return nil, err
@@ -1599,7 +1599,7 @@ func (p *Parser) parseNestedType(name *Ident, pos Pos) (*NestedType, error) {
 
 func (p *Parser) parseNestedTypeFields() ([]Expr, error) {
 	switch {
-	case p.lexer.isEOF() || p.matchTokenKind(TokenKindRParen):
+	case p.current() == nil || p.matchTokenKind(TokenKindRParen):
 		// Cases like `Tuple()`
 		return []Expr{}, nil
 	case p.matchTokenKind(TokenKindIdent):
@@ -1641,7 +1641,7 @@ func (p *Parser) parseNestedTypeFieldsWithNames(columnName *Ident) ([]Expr, erro
 		return columns, nil
 	}
 
-	for !p.lexer.isEOF() && !p.matchTokenKind(TokenKindRParen) {
+	for p.current() != nil && !p.matchTokenKind(TokenKindRParen) {
 		column, err := p.parseNestedTypeFieldWithName()
 		if err != nil {
 			return nil, err
@@ -1673,7 +1673,7 @@ func (p *Parser) parseNestedTypeFieldsWithoutNames(columnType *Ident) ([]Expr, e
 		return columns, nil
 	}
 
-	for !p.lexer.isEOF() && !p.matchTokenKind(TokenKindRParen) {
+	for p.current() != nil && !p.matchTokenKind(TokenKindRParen) {
 		column, err := p.parseColumnType(p.Pos())
 		if err != nil {
 			return nil, err
diff --git a/parser/parser_table.go b/parser/parser_table.go
index 33c6cfd..5d57590 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -228,7 +228,7 @@ func (p *Parser) parseCreateNamedCollection(pos Pos) (*CreateNamedCollection, er
 
 	// parse parameters
 	params := make([]*NamedCollectionParam, 0)
-	for !p.lexer.isEOF() {
+	for p.current() != nil {
 		param, err := p.parseNamedCollectionParam(p.Pos())
 		if err != nil {
 			return nil, err
@@ -606,7 +606,7 @@ func (p *Parser) parseTableSchemaClause(pos Pos) (*TableSchemaClause, error) {
 
 func (p *Parser) parseTableColumns() ([]Expr, error) {
 	columns := make([]Expr, 0)
-	for !p.lexer.isEOF() {
+	for p.current() != nil {
 		switch {
 		case p.matchKeyword(KeywordIndex):
 			indexPos := p.Pos()
@@ -816,7 +816,7 @@ func (p *Parser) parseTableArgList(pos Pos) (*TableArgListExpr, error) {
 	}
 
 	args := make([]Expr, 0)
-	for !p.lexer.isEOF() && !p.matchTokenKind(TokenKindRParen) {
+	for p.current() != nil && !p.matchTokenKind(TokenKindRParen) {
 		// Check if this is a named parameter (identifier followed by =)
 		var arg Expr
 		var err error
@@ -1029,7 +1029,7 @@ func (p *Parser) parseOrderByClause(pos Pos) (*OrderByClause, error) {
 		}
 		items = append(items, expr)
 
-		if p.lexer.isEOF() || p.tryConsumeTokenKind(TokenKindComma) == nil {
+		if p.current() == nil || p.tryConsumeTokenKind(TokenKindComma) == nil {
 			break
 		}
 	}
@@ -1226,7 +1226,7 @@ func (p *Parser) parseTTLClause(pos Pos, allowMultiValues bool) ([]*TTLExpr, err
 		return nil, err
 	}
 	items = append(items, expr)
-	for allowMultiValues && !p.lexer.isEOF() && p.tryConsumeTokenKind(TokenKindComma) != nil {
+	for allowMultiValues && p.current() != nil && p.tryConsumeTokenKind(TokenKindComma) != nil {
 		expr, err = p.parseTTLExpr(pos)
 		if err != nil {
 			return nil, err
@@ -1463,7 +1463,7 @@ func (p *Parser) parseEngineExpr(pos Pos) (*EngineExpr, error) {
 		return nil, fmt.Errorf("unexpected token: %s", p.currentTokenKind())
 	}
 
-	for !p.lexer.isEOF() {
+	for p.current() != nil {
 		switch {
 		case p.matchKeyword(KeywordOrder):
 			orderBy, err := p.tryParseTableOrderByClause(p.Pos())
@@ -1850,7 +1850,7 @@ func (p *Parser) parseColumnNamesExpr(pos Pos) (*ColumnNamesExpr, error) {
 	}
 
 	var columnNames []NestedIdentifier
-	for !p.lexer.isEOF() && !p.matchTokenKind(TokenKindRParen) {
+	for p.current() != nil && !p.matchTokenKind(TokenKindRParen) {
 		name, err := p.ParseNestedIdentifier(p.Pos())
 		if err != nil {
 			return nil, err
@@ -1908,7 +1908,7 @@ func (p *Parser) parseAssignmentValues(pos Pos) (*AssignmentValues, error) {
 	var value Expr
 	var err error
 	values := make([]Expr, 0)
-	for !p.lexer.isEOF() && !p.matchTokenKind(TokenKindRParen) {
+	for p.current() != nil && !p.matchTokenKind(TokenKindRParen) {
 		savedState := p.lexer.saveState()
 		isExpr := false
 		switch {
@@ -1985,7 +1985,7 @@ func (p *Parser) parseInsertStmt(pos Pos) (*InsertStmt, error) {
 		// consume VALUES keyword
 		_ = p.lexer.consumeToken()
 		values := make([]*AssignmentValues, 0)
-		for !p.lexer.isEOF() {
+		for p.current() != nil {
 			value, err := p.parseAssignmentValues(p.Pos())
 			if err != nil {
 				return nil, err
-- 
2.43.0


From 63f705cedb1e96172204e565258ddfe9af396dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:08 +0000
Subject: [PATCH 42/85] fix: CREATE USER DEFAULT ROLE and DEFAULT DATABASE in
 any letter case

---
 parser/parse_system.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index 9abc984..caeedb3 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -818,7 +818,7 @@ func (p *Parser) parseDefaultClause(createUser *CreateUser) (bool, error) {
 		return false, nil
 	}
 
-	if nextToken.String == KeywordRole {
+	if nextToken.Kind == TokenKindKeyword && strings.EqualFold(nextToken.String, KeywordRole) {
 		defaultRole, err := p.parseDefaultRoleClause(p.Pos())
 		if err != nil {
 			return false, err
@@ -826,7 +826,7 @@ func (p *Parser) parseDefaultClause(createUser *CreateUser) (bool, error) {
 		createUser.DefaultRole = defaultRole
 		createUser.StatementEnd = defaultRole.End()
 		return true, nil
-	} else if nextToken.String == KeywordDatabase {
+	} else if nextToken.Kind == TokenKindKeyword && strings.EqualFold(nextToken.String, KeywordDatabase) {
 		_ = p.lexer.consumeToken() // consume DEFAULT
 		_ = p.lexer.consumeToken() // consume DATABASE
 		if p.tryConsumeKeywords(KeywordNone) {
-- 
2.43.0


From 2caecbb25c0e142711b146b344842ccaf6e3bc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:26 +0000
Subject: [PATCH 43/85] fix: a sign binds looser than index, member access and
 cast

---
 parser/parser_column.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index d45ed06..4615a2e 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -402,7 +402,9 @@ func (p *Parser) parseUnaryExpr(pos Pos) (Expr, error) {
 	case p.matchTokenKind(TokenKindPlus),
 		p.matchTokenKind(TokenKindMinus):
 		_ = p.lexer.consumeToken()
-		expr, err = p.parseColumnExpr(p.Pos())
+		// A sign binds looser than `[]`, `.` and `::`, and tighter than any
+		// binary operator: `-a.b` is `-(a.b)`.
+		expr, err = p.parseSubExpr(p.Pos(), PrecedenceMulDivMod)
 	case p.matchKeyword(KeywordNot):
 		_ = p.lexer.consumeToken()
 		// Prefix NOT binds looser than comparisons: `NOT a = b` negates the
-- 
2.43.0


From def991dbeb405930dba01d12a767ef45c964df7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:16 +0000
Subject: [PATCH 44/85] fix: tuple element of a qualified column

---
 parser/parser_table.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index 5d57590..fcd9584 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -478,9 +478,11 @@ func (p *Parser) parseIdentOrFunction(_ Pos) (Expr, error) {
 					return nil, err
 				}
 				fields = append(fields, child)
-				if p.tryConsumeTokenKind(TokenKindDot) == nil {
+				// a number after the dot is a tuple element of the column
+				if !p.matchTokenKind(TokenKindDot) || p.peekTokenKind(TokenKindInt) {
 					break
 				}
+				_ = p.lexer.consumeToken()
 			}
 			return &Path{Fields: fields}, nil
 		case p.matchTokenKind("*"):
-- 
2.43.0


From 9737f3e82adb0a2991b1769215a656a80643d616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:25 +0000
Subject: [PATCH 45/85] fix: index and member access after a cast apply to the
 cast value

---
 parser/parser_column.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index 4615a2e..f430b07 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -151,7 +151,15 @@ func (p *Parser) parseInfix(expr Expr, precedence int) (Expr, error) {
 			}, nil
 		}
 
-		rightExpr, err := p.parseSubExpr(p.Pos(), precedence)
+		var rightExpr Expr
+		var err error
+		if p.matchTokenKind(TokenKindIdent) && !p.peekTokenKind(TokenKindLParen) {
+			// An index or member access after the type belongs to the cast
+			// value: `a::T[1]` is `(a::T)[1]`.
+			rightExpr, err = p.parseIdent()
+		} else {
+			rightExpr, err = p.parseSubExpr(p.Pos(), precedence)
+		}
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 4919e6ccf1d8280a2a257e93f68cb5c96eb75dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:06 +0000
Subject: [PATCH 46/85] fix: SELECT a EXCEPT SELECT b is a set operation

---
 parser/parser_column.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index f430b07..eb0eb28 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -1201,6 +1201,10 @@ func (p *Parser) parseSelectItem() (*SelectItem, error) {
 
 	modifiers := make([]*FunctionExpr, 0)
 	for {
+		if p.matchKeyword(KeywordExcept) && (p.peekKeyword(KeywordSelect) || p.peekKeyword(KeywordWith)) {
+			// the set operation, not the column modifier
+			break
+		}
 		if p.matchKeyword(KeywordExcept) || p.matchKeyword(KeywordApply) || p.matchKeyword(KeywordReplace) {
 			modifier, err := p.parseFunctionExpr(p.Pos())
 			if err != nil {
-- 
2.43.0


From 2c89d183fbcf795d121a931a290ee5630d9cf3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:52 +0000
Subject: [PATCH 47/85] fix: a sign after a closing brace is an operator

---
 parser/lexer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 96c6d09..f040fc0 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -356,9 +356,10 @@ func (l *Lexer) hasPrecedenceToken(last *Token) bool {
 		last.Kind == TokenKindFloat ||
 		last.Kind == TokenKindString ||
 		// A closing bracket also terminates an expression, so a following
-		// +/- is a binary operator, e.g. (1)-1 or arr[1]-1.
+		// +/- is a binary operator, e.g. (1)-1, arr[1]-1 or {id:Int8}-1.
 		last.Kind == TokenKindRParen ||
-		last.Kind == TokenKindRBracket)
+		last.Kind == TokenKindRBracket ||
+		last.Kind == TokenKindRBrace)
 }
 
 func (l *Lexer) consumeToken() error {
-- 
2.43.0


From 6ce3fbecfc05f517cc71a9424703d354c788a647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:37 +0000
Subject: [PATCH 48/85] fix: cast and extract are column names unless a
 parenthesis follows

---
 parser/parser_column.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index eb0eb28..ffe3f19 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -627,13 +627,13 @@ func (p *Parser) parseColumnExpr(pos Pos) (Expr, error) { //nolint:funlen
 			return p.parseString(p.Pos())
 		}
 		return p.parseIdentOrFunction(pos)
-	case p.matchKeyword(KeywordCast):
+	case p.matchKeyword(KeywordCast) && p.peekTokenKind(TokenKindLParen):
 		return p.parseColumnCastExpr(pos)
 	case p.matchKeyword(KeywordCase):
 		return p.parseColumnCaseExpr(pos)
 	case p.matchKeyword(KeywordSelect):
 		return p.parseSelectQuery(pos)
-	case p.matchKeyword(KeywordExtract):
+	case p.matchKeyword(KeywordExtract) && p.peekTokenKind(TokenKindLParen):
 		return p.parseColumnExtractExpr(pos)
 	case p.matchTokenKind(TokenKindIdent):
 		return p.parseIdentOrFunction(pos)
-- 
2.43.0


From a74f8409c854527e73749e4ef642236960bcaee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:17 +0000
Subject: [PATCH 49/85] fix: print VALUES of an INSERT without values

---
 parser/format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/format.go b/parser/format.go
index 322529f..fddd810 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -1738,7 +1738,7 @@ func (i *InsertStmt) FormatSQL(formatter *Formatter) {
 	if i.SelectExpr != nil {
 		formatter.Break()
 		formatter.WriteExpr(i.SelectExpr)
-	} else if len(i.Values) > 0 {
+	} else if i.Values != nil {
 		formatter.Break()
 		formatter.WriteString("VALUES")
 		formatter.Indent()
-- 
2.43.0


From 174a69b8d3a89c883df4758311601d3faa0d02ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:27 +0000
Subject: [PATCH 50/85] fix: ALTER TABLE CLEAR ... IN needs a partition

---
 parser/parser_alter.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/parser/parser_alter.go b/parser/parser_alter.go
index 70f4940..dad335a 100644
--- a/parser/parser_alter.go
+++ b/parser/parser_alter.go
@@ -568,13 +568,11 @@ func (p *Parser) parseAlterTableClearClause(pos Pos) (AlterTableClause, error) {
 
 	var partition *PartitionClause
 	if p.tryConsumeKeywords(KeywordIn) {
-		partition, err = p.tryParsePartitionClause(p.Pos())
+		partition, err = p.parsePartitionClause(p.Pos())
 		if err != nil {
 			return nil, err
 		}
-		if partition != nil {
-			statementEnd = partition.End()
-		}
+		statementEnd = partition.End()
 	}
 
 	if kind == KeywordProjection {
-- 
2.43.0


From 10bfcadc2050278fc094cb3063ad1e8cadc0a10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:36 +0000
Subject: [PATCH 51/85] fix: IDENTIFIED WITH needs an authentication type

---
 parser/parse_system.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index caeedb3..a6551bb 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -621,6 +621,8 @@ func (p *Parser) parseAuthenticationClause(pos Pos) (*AuthenticationClause, erro
 				auth.AuthValue = value
 				auth.AuthEnd = value.End()
 			}
+		} else {
+			return nil, fmt.Errorf("expected an authentication type, but got %q", p.currentTokenString())
 		}
 	}
 
-- 
2.43.0


From e81b6505b6d369bfde82729cfb64f64acea212e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:47 +0000
Subject: [PATCH 52/85] fix: CREATE USER dropped all but the last of repeated
 clauses

---
 parser/parse_system.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index a6551bb..cb019c0 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -820,7 +820,7 @@ func (p *Parser) parseDefaultClause(createUser *CreateUser) (bool, error) {
 		return false, nil
 	}
 
-	if nextToken.Kind == TokenKindKeyword && strings.EqualFold(nextToken.String, KeywordRole) {
+	if nextToken.Kind == TokenKindKeyword && strings.EqualFold(nextToken.String, KeywordRole) && createUser.DefaultRole == nil {
 		defaultRole, err := p.parseDefaultRoleClause(p.Pos())
 		if err != nil {
 			return false, err
@@ -828,7 +828,8 @@ func (p *Parser) parseDefaultClause(createUser *CreateUser) (bool, error) {
 		createUser.DefaultRole = defaultRole
 		createUser.StatementEnd = defaultRole.End()
 		return true, nil
-	} else if nextToken.Kind == TokenKindKeyword && strings.EqualFold(nextToken.String, KeywordDatabase) {
+	} else if nextToken.Kind == TokenKindKeyword && strings.EqualFold(nextToken.String, KeywordDatabase) &&
+		createUser.DefaultDatabase == nil && !createUser.DefaultDbNone {
 		_ = p.lexer.consumeToken() // consume DEFAULT
 		_ = p.lexer.consumeToken() // consume DATABASE
 		if p.tryConsumeKeywords(KeywordNone) {
@@ -851,7 +852,7 @@ func (p *Parser) parseOptionalClauses(createUser *CreateUser) error {
 	continueParsing := true
 	for continueParsing {
 		switch {
-		case p.matchOneOfKeywords(KeywordNot, KeywordIdentified):
+		case p.matchOneOfKeywords(KeywordNot, KeywordIdentified) && createUser.Authentication == nil:
 			auth, err := p.parseAuthenticationClause(p.Pos())
 			if err != nil {
 				return err
@@ -859,7 +860,7 @@ func (p *Parser) parseOptionalClauses(createUser *CreateUser) error {
 			createUser.Authentication = auth
 			createUser.StatementEnd = auth.End()
 
-		case p.matchKeyword(KeywordValid):
+		case p.matchKeyword(KeywordValid) && createUser.ValidUntil == nil:
 			_ = p.lexer.consumeToken() // consume VALID keyword
 			if err := p.expectKeyword(KeywordUntil); err != nil {
 				return err
@@ -871,7 +872,7 @@ func (p *Parser) parseOptionalClauses(createUser *CreateUser) error {
 			createUser.ValidUntil = validUntil
 			createUser.StatementEnd = validUntil.End()
 
-		case p.matchKeyword(KeywordHost):
+		case p.matchKeyword(KeywordHost) && createUser.Hosts == nil:
 			hosts, err := p.parseHostClauses()
 			if err != nil {
 				return err
@@ -888,7 +889,7 @@ func (p *Parser) parseOptionalClauses(createUser *CreateUser) error {
 				continueParsing = false
 			}
 
-		case p.matchKeyword(KeywordGrantees):
+		case p.matchKeyword(KeywordGrantees) && createUser.Grantees == nil:
 			grantees, err := p.parseGranteesClause(p.Pos())
 			if err != nil {
 				return err
@@ -896,7 +897,7 @@ func (p *Parser) parseOptionalClauses(createUser *CreateUser) error {
 			createUser.Grantees = grantees
 			createUser.StatementEnd = grantees.End()
 
-		case p.matchKeyword(KeywordSettings):
+		case p.matchKeyword(KeywordSettings) && createUser.Settings == nil:
 			_ = p.lexer.consumeToken() // consume SETTINGS keyword
 			settings, err := p.parseRoleSettings(p.Pos())
 			if err != nil {
-- 
2.43.0


From 4d6b2eb7d5770e662fed4346e2e90b0751f31708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:57 +0000
Subject: [PATCH 53/85] fix: a quoted GRANT option lost its quotes

---
 parser/parse_system.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index cb019c0..6820036 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -1320,6 +1320,9 @@ func (p *Parser) parseGrantOption(_ Pos) (string, error) {
 	if err != nil {
 		return "", err
 	}
+	if ident.QuoteType != Unquoted {
+		return "", fmt.Errorf("expected GRANT|ADMIN|REPLACE, but got %q", ident.Name)
+	}
 	if err := p.expectKeyword(KeywordOption); err != nil {
 		return "", err
 	}
-- 
2.43.0


From fa0f7c32f394638edbfc4427a1b7f151fce13cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:37 +0000
Subject: [PATCH 54/85] fix: a table engine dropped all but the last of
 repeated clauses

---
 parser/parser_table.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index fcd9584..6fd3519 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1467,42 +1467,42 @@ func (p *Parser) parseEngineExpr(pos Pos) (*EngineExpr, error) {
 
 	for p.current() != nil {
 		switch {
-		case p.matchKeyword(KeywordOrder):
+		case p.matchKeyword(KeywordOrder) && engineExpr.OrderBy == nil:
 			orderBy, err := p.tryParseTableOrderByClause(p.Pos())
 			if err != nil {
 				return nil, err
 			}
 			engineExpr.OrderBy = orderBy
 			engineEnd = orderBy.End()
-		case p.matchKeyword(KeywordPartition):
+		case p.matchKeyword(KeywordPartition) && engineExpr.PartitionBy == nil:
 			partitionBy, err := p.tryParsePartitionByClause(p.Pos())
 			if err != nil {
 				return nil, err
 			}
 			engineExpr.PartitionBy = partitionBy
 			engineEnd = partitionBy.End()
-		case p.matchKeyword(KeywordPrimary):
+		case p.matchKeyword(KeywordPrimary) && engineExpr.PrimaryKey == nil:
 			primaryKey, err := p.tryParsePrimaryKeyClause(p.Pos())
 			if err != nil {
 				return nil, err
 			}
 			engineExpr.PrimaryKey = primaryKey
 			engineEnd = primaryKey.End()
-		case p.matchKeyword(KeywordSample):
+		case p.matchKeyword(KeywordSample) && engineExpr.SampleBy == nil:
 			sampleBy, err := p.tryParseSampleByClause(p.Pos())
 			if err != nil {
 				return nil, err
 			}
 			engineExpr.SampleBy = sampleBy
 			engineEnd = sampleBy.End()
-		case p.matchKeyword(KeywordTtl):
+		case p.matchKeyword(KeywordTtl) && engineExpr.TTL == nil:
 			ttl, err := p.tryParseTTLClause(p.Pos(), true)
 			if err != nil {
 				return nil, err
 			}
 			engineExpr.TTL = ttl
 			engineEnd = ttl.End()
-		case p.matchKeyword(KeywordSettings):
+		case p.matchKeyword(KeywordSettings) && engineExpr.Settings == nil:
 			settingsClause, err := p.tryParseSettingsClause(p.Pos())
 			if err != nil {
 				return nil, err
-- 
2.43.0


From e0dbc5c6d680422fb937e888bad66bf17ce29d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:46 +0000
Subject: [PATCH 55/85] fix: ALTER TABLE MATERIALIZE ... IN needs a partition

---
 parser/parser_alter.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/parser/parser_alter.go b/parser/parser_alter.go
index dad335a..a57df1f 100644
--- a/parser/parser_alter.go
+++ b/parser/parser_alter.go
@@ -819,13 +819,11 @@ func (p *Parser) parseAlterTableMaterialize(pos Pos) (AlterTableClause, error) {
 	statementEnd := name.End()
 	var partition *PartitionClause
 	if p.tryConsumeKeywords(KeywordIn) {
-		partition, err = p.tryParsePartitionClause(p.Pos())
+		partition, err = p.parsePartitionClause(p.Pos())
 		if err != nil {
 			return nil, err
 		}
-		if partition != nil {
-			statementEnd = partition.End()
-		}
+		statementEnd = partition.End()
 	}
 	if kind == KeywordIndex {
 		return &AlterTableMaterializeIndex{
-- 
2.43.0


From 5e4afb012aaa7213de4750cef9a5a5662b5082a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:55 +0000
Subject: [PATCH 56/85] fix: DROP USER dropped a second ON CLUSTER

---
 parser/parse_system.go | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index 6820036..1b7180a 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -973,14 +973,6 @@ func (p *Parser) parserDropUserOrRole(pos Pos) (*DropUserOrRole, error) {
 	}
 	statementEnd := names[len(names)-1].End()
 
-	onCluster, err := p.tryParseClusterClause(p.Pos())
-	if err != nil {
-		return nil, err
-	}
-	if onCluster != nil {
-		statementEnd = onCluster.End()
-	}
-
 	var from *Ident
 	if p.tryConsumeKeywords(KeywordFrom) {
 		from, err = p.parseIdent()
-- 
2.43.0


From a1bd39ae118d89af177eaa9f154bf4b9446c7b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 57/85] fix: a role name with a scope and ON CLUSTER ended
 before ON CLUSTER

---
 parser/ast.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/ast.go b/parser/ast.go
index ad4606d..50c4aee 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -1616,12 +1616,12 @@ func (r *RoleName) Pos() Pos {
 }
 
 func (r *RoleName) End() Pos {
-	if r.Scope != nil {
-		return r.Scope.End()
-	}
 	if r.OnCluster != nil {
 		return r.OnCluster.End()
 	}
+	if r.Scope != nil {
+		return r.Scope.End()
+	}
 	return r.Name.End()
 }
 
-- 
2.43.0


From 01a0a419b437f340b012d42a401c9a3d6cd7a283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:12 +0000
Subject: [PATCH 58/85] fix: CREATE TABLE ... AS t ended one token too late

---
 parser/parser_table.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index 6fd3519..eca27d9 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -586,7 +586,7 @@ func (p *Parser) parseTableSchemaClause(pos Pos) (*TableSchemaClause, error) {
 			}
 			return &TableSchemaClause{
 				SchemaPos: pos,
-				SchemaEnd: p.End(),
+				SchemaEnd: argsExpr.End(),
 				TableFunction: &TableFunctionExpr{
 					Name: ident,
 					Args: argsExpr,
@@ -595,7 +595,7 @@ func (p *Parser) parseTableSchemaClause(pos Pos) (*TableSchemaClause, error) {
 		default:
 			return &TableSchemaClause{
 				SchemaPos: pos,
-				SchemaEnd: p.End(),
+				SchemaEnd: ident.End(),
 				AliasTable: &TableIdentifier{
 					Table: ident,
 				},
-- 
2.43.0


From 76f63247aa8c05ac8bb3b8bd80c797263595f3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 59/85] fix: CREATE DATABASE ended before its COMMENT

---
 parser/parser_table.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index eca27d9..158a798 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -110,6 +110,9 @@ func (p *Parser) parseCreateDatabase(pos Pos) (*CreateDatabase, error) {
 	if err != nil {
 		return nil, err
 	}
+	if commentExpr != nil {
+		StatementEnd = commentExpr.End()
+	}
 	return &CreateDatabase{
 		CreatePos:    pos,
 		StatementEnd: StatementEnd,
-- 
2.43.0


From 4ae1e78a2381176c2c8426627401ce839362e280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:45 +0000
Subject: [PATCH 60/85] fix: DETACH PARTITION ... SETTINGS ended before
 SETTINGS

---
 parser/ast.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/ast.go b/parser/ast.go
index 50c4aee..feedae8 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -283,6 +283,9 @@ func (a *AlterTableDetachPartition) Pos() Pos {
 }
 
 func (a *AlterTableDetachPartition) End() Pos {
+	if a.Settings != nil {
+		return a.Settings.End()
+	}
 	return a.Partition.End()
 }
 
-- 
2.43.0


From 6ee9ee1fb5689ad37fdb80169383385dcb122acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:59 +0000
Subject: [PATCH 61/85] fix: ALTER TABLE ... REMOVE TTL ended at the next token

---
 parser/parser_alter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/parser_alter.go b/parser/parser_alter.go
index a57df1f..e8266f1 100644
--- a/parser/parser_alter.go
+++ b/parser/parser_alter.go
@@ -523,13 +523,14 @@ func (p *Parser) parseAlterTableRemoveTTL(pos Pos) (AlterTableClause, error) {
 		return nil, err
 	}
 
+	statementEnd := p.currentEnd()
 	if err := p.expectKeyword(KeywordTtl); err != nil {
 		return nil, err
 	}
 
 	return &AlterTableRemoveTTL{
 		RemovePos:    pos,
-		StatementEnd: p.Pos(),
+		StatementEnd: statementEnd,
 	}, nil
 }
 
-- 
2.43.0


From bc24bc2fee41dbbe8737842bf50662aec93bedb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:12 +0000
Subject: [PATCH 62/85] fix: ALTER TABLE ... FREEZE ended at the next token

---
 parser/parser_alter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/parser_alter.go b/parser/parser_alter.go
index e8266f1..bdc4742 100644
--- a/parser/parser_alter.go
+++ b/parser/parser_alter.go
@@ -499,12 +499,13 @@ func (p *Parser) parseAlterTableDropPartition(pos Pos) (AlterTableClause, error)
 }
 
 func (p *Parser) parseAlterTableFreezePartition(pos Pos) (AlterTableClause, error) {
+	statementEnd := p.currentEnd()
 	if err := p.expectKeyword(KeywordFreeze); err != nil {
 		return nil, err
 	}
 	alterTable := &AlterTableFreezePartition{
 		FreezePos:    pos,
-		StatementEnd: p.Pos(),
+		StatementEnd: statementEnd,
 	}
 	if p.matchKeyword(KeywordPartition) {
 		partition, err := p.parsePartitionClause(p.Pos())
-- 
2.43.0


From ce719e277ce1a5368a304932aec71a2fc2a5a3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:26 +0000
Subject: [PATCH 63/85] fix: OPTIMIZE TABLE ... FINAL ended before FINAL

---
 parser/parse_system.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index 1b7180a..700e1fc 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -304,10 +304,10 @@ func (p *Parser) parseOptimizeStmt(pos Pos) (*OptimizeStmt, error) {
 	}
 
 	hasFinal := false
-	lastPos := p.Pos()
+	finalEnd := p.currentEnd()
 	if p.tryConsumeKeywords(KeywordFinal) {
 		hasFinal = true
-		statementEnd = lastPos
+		statementEnd = finalEnd
 	}
 
 	deduplicate, err := p.tryParseDeduplicateClause(p.Pos())
-- 
2.43.0


From 3dc1dc6e55c171eb819654ea4bb649a3d7fa42f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:39 +0000
Subject: [PATCH 64/85] fix: a table with FINAL ended before FINAL

---
 parser/parser_query.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/parser_query.go b/parser/parser_query.go
index 7216959..4a5000d 100644
--- a/parser/parser_query.go
+++ b/parser/parser_query.go
@@ -481,6 +481,7 @@ func (p *Parser) parseTableExpr(pos Pos) (*TableExpr, error) {
 	}
 
 	isFinalExist := false
+	finalEnd := p.currentEnd()
 	if p.tryConsumeKeywords(KeywordFinal) {
 		switch expr.(type) {
 		case *TableFunctionExpr:
@@ -489,7 +490,7 @@ func (p *Parser) parseTableExpr(pos Pos) (*TableExpr, error) {
 			return nil, errors.New("subquery doesn't support FINAL")
 		}
 		isFinalExist = true
-		tableEnd = expr.End()
+		tableEnd = finalEnd
 	}
 
 	return &TableExpr{
-- 
2.43.0


From fedd74ab4c7575ddbe998d1d85b99ae457be81c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:52 +0000
Subject: [PATCH 65/85] fix: an ORDER BY item ended before its WITH FILL

---
 parser/ast.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/ast.go b/parser/ast.go
index feedae8..3e42c82 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -2690,6 +2690,9 @@ func (o *OrderExpr) Pos() Pos {
 }
 
 func (o *OrderExpr) End() Pos {
+	if o.Fill != nil {
+		return o.Fill.End()
+	}
 	if o.Fill != nil {
 		return o.Fill.End()
 	}
-- 
2.43.0


From 61a0a53d4814f0273c01866c15615e18495ad7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:07 +0000
Subject: [PATCH 66/85] fix: an enum type started after its name

---
 parser/ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/ast.go b/parser/ast.go
index 3e42c82..a7c4b25 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -3698,7 +3698,7 @@ type EnumType struct {
 }
 
 func (e *EnumType) Pos() Pos {
-	return e.ListPos
+	return e.Name.Pos()
 }
 
 func (e *EnumType) End() Pos {
-- 
2.43.0


From 231595f8b12ac214330dacc5d69a5f61e4e1f2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:21 +0000
Subject: [PATCH 67/85] fix: an aliased table started at its alias

---
 parser/ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/ast.go b/parser/ast.go
index a7c4b25..69ac7ca 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -4823,7 +4823,7 @@ type AliasExpr struct {
 }
 
 func (a *AliasExpr) Pos() Pos {
-	return a.AliasPos
+	return a.Expr.Pos()
 }
 
 func (a *AliasExpr) End() Pos {
-- 
2.43.0


From 3e7c9ddfe20acc152283b60dfba03830a94031c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:35 +0000
Subject: [PATCH 68/85] fix: DROP USER, ROLE and DATABASE ended before or after
 their last word

---
 parser/parse_system.go |  6 +++++-
 parser/parser_drop.go  | 19 +++++++++++--------
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index 700e1fc..d5aa9ea 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -979,12 +979,16 @@ func (p *Parser) parserDropUserOrRole(pos Pos) (*DropUserOrRole, error) {
 		if err != nil {
 			return nil, err
 		}
+		statementEnd = from.End()
 	}
 
-	modifier, err := p.tryParseModifier()
+	modifier, modifierEnd, err := p.tryParseModifier()
 	if err != nil {
 		return nil, err
 	}
+	if modifier != "" {
+		statementEnd = modifierEnd
+	}
 
 	return &DropUserOrRole{
 		DropPos:      pos,
diff --git a/parser/parser_drop.go b/parser/parser_drop.go
index dc06329..1077488 100644
--- a/parser/parser_drop.go
+++ b/parser/parser_drop.go
@@ -25,12 +25,12 @@ func (p *Parser) parseDropDatabase(pos Pos) (*DropDatabase, error) {
 		statementEnd = onCluster.End()
 	}
 
-	modifier, err := p.tryParseModifier()
+	modifier, modifierEnd, err := p.tryParseModifier()
 	if err != nil {
 		return nil, err
 	}
 	if modifier != "" {
-		statementEnd = p.Pos()
+		statementEnd = modifierEnd
 	}
 
 	return &DropDatabase{
@@ -73,7 +73,7 @@ func (p *Parser) parseDropStmt(pos Pos) (*DropStmt, error) {
 		return nil, err
 	}
 
-	modifier, err := p.tryParseModifier()
+	modifier, _, err := p.tryParseModifier()
 	if err != nil {
 		return nil, err
 	}
@@ -90,15 +90,18 @@ func (p *Parser) parseDropStmt(pos Pos) (*DropStmt, error) {
 	}, nil
 }
 
-func (p *Parser) tryParseModifier() (string, error) {
+// tryParseModifier returns the modifier, empty if there is none, and its end.
+func (p *Parser) tryParseModifier() (string, Pos, error) {
+	end := p.currentEnd()
 	switch {
 	case p.tryConsumeKeywords(KeywordSync):
-		return "SYNC", nil
+		return "SYNC", end, nil
 	case p.tryConsumeKeywords(KeywordNo):
+		end = p.currentEnd()
 		if err := p.expectKeyword(KeywordDelay); err != nil {
-			return "", err
+			return "", 0, err
 		}
-		return "NO DELAY", nil
+		return "NO DELAY", end, nil
 	}
-	return "", nil
+	return "", 0, nil
 }
-- 
2.43.0


From 15e0135c19131dfa5dd2e3e8ce0b356713a1ce69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:14 +0000
Subject: [PATCH 69/85] fix: a second argument list was left out of the range
 of the first

---
 parser/ast.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/ast.go b/parser/ast.go
index 69ac7ca..1f9027e 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -2873,6 +2873,9 @@ func (f *ParamExprList) Pos() Pos {
 }
 
 func (f *ParamExprList) End() Pos {
+	if f.ColumnArgList != nil {
+		return f.ColumnArgList.End()
+	}
 	return f.RightParenPos
 }
 
-- 
2.43.0


From e0f18c2a63c94e2ab73d07193fe098b2b1fb44da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:27 +0000
Subject: [PATCH 70/85] fix: a view without a query ended at 0

---
 parser/parser_view.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/parser/parser_view.go b/parser/parser_view.go
index 02e31bc..c76bcff 100644
--- a/parser/parser_view.go
+++ b/parser/parser_view.go
@@ -236,18 +236,25 @@ func (p *Parser) parseCreateView(pos Pos, orReplace bool) (*CreateView, error) {
 		return nil, err
 	}
 	createView.Name = tableIdentifier
+	createView.StatementEnd = tableIdentifier.End()
 
 	uuid, err := p.tryParseUUID()
 	if err != nil {
 		return nil, err
 	}
 	createView.UUID = uuid
+	if uuid != nil {
+		createView.StatementEnd = uuid.End()
+	}
 
 	onCluster, err := p.tryParseClusterClause(p.Pos())
 	if err != nil {
 		return nil, err
 	}
 	createView.OnCluster = onCluster
+	if onCluster != nil {
+		createView.StatementEnd = onCluster.End()
+	}
 
 	if p.matchTokenKind(TokenKindLParen) {
 		tableSchema, err := p.parseTableSchemaClause(p.Pos())
@@ -255,6 +262,7 @@ func (p *Parser) parseCreateView(pos Pos, orReplace bool) (*CreateView, error) {
 			return nil, err
 		}
 		createView.TableSchema = tableSchema
+		createView.StatementEnd = tableSchema.End()
 	}
 
 	// parse COMMENT clause if exists (before AS SELECT)
@@ -263,6 +271,9 @@ func (p *Parser) parseCreateView(pos Pos, orReplace bool) (*CreateView, error) {
 		return nil, err
 	}
 	createView.Comment = comment
+	if comment != nil {
+		createView.StatementEnd = comment.End()
+	}
 
 	if p.tryConsumeKeywords(KeywordAs) {
 		subQuery, err := p.parseSubQuery(p.Pos())
@@ -301,6 +312,7 @@ func (p *Parser) parseCreateLiveView(pos Pos) (*CreateLiveView, error) {
 		return nil, err
 	}
 	createLiveView.Name = tableIdentifier
+	createLiveView.StatementEnd = tableIdentifier.End()
 
 	// try parse UUID clause if exists
 	uuid, err := p.tryParseUUID()
@@ -308,18 +320,27 @@ func (p *Parser) parseCreateLiveView(pos Pos) (*CreateLiveView, error) {
 		return nil, err
 	}
 	createLiveView.UUID = uuid
+	if uuid != nil {
+		createLiveView.StatementEnd = uuid.End()
+	}
 	// parse ON CLUSTER clause if exists
 	onCluster, err := p.tryParseClusterClause(p.Pos())
 	if err != nil {
 		return nil, err
 	}
 	createLiveView.OnCluster = onCluster
+	if onCluster != nil {
+		createLiveView.StatementEnd = onCluster.End()
+	}
 
 	withTimeout, err := p.tryParseWithTimeout(p.Pos())
 	if err != nil {
 		return nil, err
 	}
 	createLiveView.WithTimeout = withTimeout
+	if withTimeout != nil {
+		createLiveView.StatementEnd = withTimeout.End()
+	}
 
 	if p.matchKeyword(KeywordTo) {
 		destination, err := p.parseDestinationClause(p.Pos())
@@ -327,6 +348,7 @@ func (p *Parser) parseCreateLiveView(pos Pos) (*CreateLiveView, error) {
 			return nil, err
 		}
 		createLiveView.Destination = destination
+		createLiveView.StatementEnd = destination.End()
 	}
 
 	if p.matchTokenKind(TokenKindLParen) {
@@ -335,6 +357,7 @@ func (p *Parser) parseCreateLiveView(pos Pos) (*CreateLiveView, error) {
 			return nil, err
 		}
 		createLiveView.TableSchema = tableSchema
+		createLiveView.StatementEnd = tableSchema.End()
 	}
 
 	if p.tryConsumeKeywords(KeywordAs) {
-- 
2.43.0


From 94e2b5a6a34697358f54ee217b01e548b54a0f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:41 +0000
Subject: [PATCH 71/85] fix: CREATE MATERIALIZED VIEW without a query ended
 before or after its last clause

---
 parser/parser_view.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/parser/parser_view.go b/parser/parser_view.go
index c76bcff..8e49e2d 100644
--- a/parser/parser_view.go
+++ b/parser/parser_view.go
@@ -96,6 +96,7 @@ func (p *Parser) parseCreateMaterializedView(pos Pos) (*CreateMaterializedView,
 				return nil, err
 			}
 			createMaterializedView.Destination.TableSchema = tableSchema
+			createMaterializedView.StatementEnd = tableSchema.End()
 		}
 	case p.matchTokenKind(TokenKindLParen):
 		// Column list before ENGINE (e.g. SHOW CREATE TABLE output for RMVs with ENGINE = Memory)
@@ -123,7 +124,11 @@ func (p *Parser) parseCreateMaterializedView(pos Pos) (*CreateMaterializedView,
 	default:
 		return nil, fmt.Errorf("unexpected token: %q, expected TO or ENGINE", p.currentTokenKind())
 	}
-	createMaterializedView.HasEmpty = p.tryConsumeKeywords(KeywordEmpty)
+	emptyEnd := p.currentEnd()
+	if p.tryConsumeKeywords(KeywordEmpty) {
+		createMaterializedView.HasEmpty = true
+		createMaterializedView.StatementEnd = emptyEnd
+	}
 
 	// Parse DEFINER clause
 	if p.tryConsumeKeywords(KeywordDefiner) {
@@ -135,6 +140,7 @@ func (p *Parser) parseCreateMaterializedView(pos Pos) (*CreateMaterializedView,
 			return nil, err
 		}
 		createMaterializedView.Definer = definer
+		createMaterializedView.StatementEnd = definer.End()
 	}
 
 	// Parse SQL SECURITY clause
@@ -143,10 +149,12 @@ func (p *Parser) parseCreateMaterializedView(pos Pos) (*CreateMaterializedView,
 			return nil, fmt.Errorf("expected DEFINER or NONE after SQL SECURITY, got %q", p.currentTokenKind())
 		}
 		createMaterializedView.SQLSecurity = p.current().String
+		createMaterializedView.StatementEnd = p.current().End
 		_ = p.lexer.consumeToken()
 	}
 
 	// Check for POPULATE before AS SELECT - only valid with ENGINE and no Destination
+	populateEnd := p.currentEnd()
 	if p.tryConsumeKeywords(KeywordPopulate) {
 		if createMaterializedView.Destination != nil {
 			return nil, fmt.Errorf("POPULATE is only allowed when using ENGINE, not with TO clause")
@@ -155,7 +163,7 @@ func (p *Parser) parseCreateMaterializedView(pos Pos) (*CreateMaterializedView,
 			return nil, fmt.Errorf("POPULATE requires ENGINE to be specified")
 		}
 		createMaterializedView.Populate = true
-		createMaterializedView.StatementEnd = p.Pos()
+		createMaterializedView.StatementEnd = populateEnd
 	}
 
 	// COMMENT can appear either before or after AS SELECT.
@@ -166,6 +174,9 @@ func (p *Parser) parseCreateMaterializedView(pos Pos) (*CreateMaterializedView,
 		return nil, err
 	}
 	createMaterializedView.Comment = comment
+	if comment != nil {
+		createMaterializedView.StatementEnd = comment.End()
+	}
 
 	if p.tryConsumeKeywords(KeywordAs) {
 		subQuery, err := p.parseSubQuery(p.Pos())
-- 
2.43.0


From efb8be35e585f75581e6cb459c2882cea3b80039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:21 +0000
Subject: [PATCH 72/85] fix: the expression of a TTL started at the TTL keyword

---
 parser/parser_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index 158a798..4ac3c8d 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1294,7 +1294,7 @@ func (p *Parser) tryParseTTLPolicy(pos Pos) (*TTLPolicy, error) {
 }
 
 func (p *Parser) parseTTLExpr(pos Pos) (*TTLExpr, error) {
-	columnExpr, err := p.parseExpr(pos)
+	columnExpr, err := p.parseExpr(p.Pos())
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 396350499747ae498fd1a2653314224df710ed71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:35 +0000
Subject: [PATCH 73/85] fix: the arguments of CREATE TABLE ... AS f() started
 at AS

---
 parser/parser_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index 4ac3c8d..5825c38 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -583,7 +583,7 @@ func (p *Parser) parseTableSchemaClause(pos Pos) (*TableSchemaClause, error) {
 			}, nil
 		case p.matchTokenKind(TokenKindLParen):
 			// it's a table function
-			argsExpr, err := p.parseTableArgList(pos)
+			argsExpr, err := p.parseTableArgList(p.Pos())
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 232b7e033935f86ce2d3fd8494d30ab013b2400f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:49 +0000
Subject: [PATCH 74/85] fix: a dot before a negative number was read as a
 decimal fraction

---
 parser/parser_common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser_common.go b/parser/parser_common.go
index a38c2c0..e690b11 100644
--- a/parser/parser_common.go
+++ b/parser/parser_common.go
@@ -371,7 +371,7 @@ func (p *Parser) parseNumber(pos Pos) (*NumberLiteral, error) {
 		if err := p.expectTokenKind(TokenKindInt); err != nil {
 			return nil, err
 		}
-		if curToken.Base != 10 {
+		if curToken.Base != 10 || curToken.String[0] == '-' {
 			return nil, fmt.Errorf("invalid decimal literal: %q", curToken.String)
 		}
 		curToken.String = "." + curToken.String
-- 
2.43.0


From 097fbf1875c984f8cdca15f402b91c71b63b3c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:12 +0000
Subject: [PATCH 75/85] fix: array join was read as a table join unless ARRAY
 was in upper case

---
 parser/parser_query.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/parser/parser_query.go b/parser/parser_query.go
index 4a5000d..bec36c3 100644
--- a/parser/parser_query.go
+++ b/parser/parser_query.go
@@ -280,6 +280,14 @@ func (p *Parser) parseJoinTableExpr(_ Pos) (Expr, error) {
 	}
 }
 
+// isArrayJoin reports whether the join modifiers make an ARRAY JOIN. Modifiers
+// keep their source spelling, hence EqualFold.
+func isArrayJoin(modifiers []string) bool {
+	return slices.ContainsFunc(modifiers, func(modifier string) bool {
+		return strings.EqualFold(modifier, KeywordArray)
+	})
+}
+
 // parseJoinModifiers parses the modifiers that may precede JOIN: an optional
 // GLOBAL/LOCAL locality followed by the join type. When a consumed locality
 // turns out not to precede a join, it rewinds the lexer and returns nil,
@@ -300,10 +308,8 @@ func (p *Parser) parseJoinModifiers(pos Pos) ([]string, error) {
 	}
 
 	// ARRAY JOIN reads a column list rather than a distributed table, so it has
-	// no locality. Modifiers keep their source spelling, hence EqualFold.
-	if slices.ContainsFunc(joinType, func(modifier string) bool {
-		return strings.EqualFold(modifier, KeywordArray)
-	}) {
+	// no locality.
+	if isArrayJoin(joinType) {
 		// point at the locality, not at wherever the join op stopped
 		return nil, &ParseError{
 			Pos: locality.Pos,
@@ -357,7 +363,7 @@ func (p *Parser) parseJoinRightExpr(pos Pos) (expr Expr, err error) {
 	modifiers = append(modifiers, KeywordJoin)
 
 	// Check if this is an ARRAY JOIN
-	if slices.Contains(modifiers, KeywordArray) {
+	if isArrayJoin(modifiers) {
 		// For ARRAY JOIN, parse column expression list instead of table expression
 		expr, err = p.parseColumnExprList(p.Pos())
 		if err != nil {
-- 
2.43.0


From b159bcb76ab123bd1f3e7b13033176cf6e5bb087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:01 +0000
Subject: [PATCH 76/85] fix: ORDER BY x AS "SELECT" took the quoted alias for
 the start of a query

---
 parser/parser_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index 5825c38..a89ee58 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1068,7 +1068,7 @@ func (p *Parser) parseOrderExpr(pos Pos) (*OrderExpr, error) {
 	var alias *Ident
 	if p.matchKeyword(KeywordAs) {
 		// It should be a subquery instead of an order by alias if the `AS` is followed by `SELECT` keyword.
-		if nextToken, err := p.lexer.peekToken(); err == nil && nextToken != nil && nextToken.ToString() == KeywordSelect {
+		if nextToken, err := p.lexer.peekToken(); err == nil && nextToken != nil && nextToken.Kind == TokenKindKeyword && nextToken.ToString() == KeywordSelect {
 			return &OrderExpr{
 				OrderPos: pos,
 				Expr:     columnExpr,
-- 
2.43.0


From 8e26d7962da00ce16afe325ae54e69072313affc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:59 +0000
Subject: [PATCH 77/85] fix: an empty USING () was accepted and printed as a
 bare USING

---
 parser/parser_query.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/parser_query.go b/parser/parser_query.go
index bec36c3..0083c7e 100644
--- a/parser/parser_query.go
+++ b/parser/parser_query.go
@@ -156,6 +156,9 @@ func (p *Parser) tryParseJoinConstraints(pos Pos) (Expr, error) {
 		if err != nil {
 			return nil, err
 		}
+		if len(columnExprList.Items) == 0 {
+			return nil, fmt.Errorf("expected a column after USING, but got %q", p.currentTokenString())
+		}
 		if hasParen {
 			if err := p.expectTokenKind(TokenKindRParen); err != nil {
 				return nil, err
-- 
2.43.0


From f97e21e4b5ce6ed3e6b75561875dbb6fb285e627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:12 +0000
Subject: [PATCH 78/85] fix: an empty kerberos realm was not printed

---
 parser/format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/format.go b/parser/format.go
index fddd810..d3eaf2f 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -569,7 +569,7 @@ func (a *AuthenticationClause) FormatSQL(formatter *Formatter) {
 	if a.IsKerberos {
 		formatter.Break()
 		formatter.WriteString("WITH kerberos")
-		if a.KerberosRealm != nil && a.KerberosRealm.Literal != "" {
+		if a.KerberosRealm != nil {
 			formatter.WriteString(" REALM ")
 			formatter.WriteExpr(a.KerberosRealm)
 		}
-- 
2.43.0


From ee9ab8edc0524a35e155d5c4b105e62e80cda2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:26 +0000
Subject: [PATCH 79/85] fix: WITH TOTALS without GROUP BY was not printed

---
 parser/format.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/format.go b/parser/format.go
index d3eaf2f..999017a 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -2395,6 +2395,10 @@ func (s *SelectQuery) FormatSQL(formatter *Formatter) {
 		formatter.Break()
 		formatter.WriteExpr(s.GroupBy)
 	}
+	if s.WithTotal {
+		formatter.Break()
+		formatter.WriteString("WITH TOTALS")
+	}
 	if s.Having != nil {
 		formatter.Break()
 		formatter.WriteExpr(s.Having)
-- 
2.43.0


From fb8588d824be00e51514eff07303fcd6559b60f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:56 +0000
Subject: [PATCH 80/85] fix: a repeated WITH CUBE, ROLLUP or TOTALS was dropped

---
 parser/parser_query.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/parser_query.go b/parser/parser_query.go
index 0083c7e..90bf88d 100644
--- a/parser/parser_query.go
+++ b/parser/parser_query.go
@@ -608,11 +608,11 @@ func (p *Parser) parseGroupByClause(pos Pos) (*GroupByClause, error) {
 		// end before it is consumed
 		keywordEnd := p.End()
 		switch {
-		case p.tryConsumeKeywords(KeywordCube):
+		case !groupBy.WithCube && p.tryConsumeKeywords(KeywordCube):
 			groupBy.WithCube = true
-		case p.tryConsumeKeywords(KeywordRollup):
+		case !groupBy.WithRollup && p.tryConsumeKeywords(KeywordRollup):
 			groupBy.WithRollup = true
-		case p.tryConsumeKeywords(KeywordTotals):
+		case !groupBy.WithTotals && p.tryConsumeKeywords(KeywordTotals):
 			groupBy.WithTotals = true
 		default:
 			return nil, fmt.Errorf("expected CUBE, ROLLUP or TOTALS, got %s", p.currentTokenKind())
-- 
2.43.0


From cee6a613168492c3caccc6e5498904d503c84538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:32 +0000
Subject: [PATCH 81/85] fix: a query in LIMIT or OFFSET must be parenthesised

The comma form LIMIT a, SELECT b was accepted and formatted as
LIMIT SELECT b OFFSET a, where the query takes the OFFSET.
---
 parser/parser_query.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/parser/parser_query.go b/parser/parser_query.go
index 90bf88d..fc074ca 100644
--- a/parser/parser_query.go
+++ b/parser/parser_query.go
@@ -644,19 +644,19 @@ func (p *Parser) parseLimitClause(pos Pos) (*LimitClause, error) {
 	var offset Expr
 	var err error
 	if p.tryConsumeKeywords(KeywordLimit) {
-		limit, err = p.parseExpr(p.Pos())
+		limit, err = p.parseLimitOperand()
 		if err != nil {
 			return nil, err
 		}
 
 		if p.tryConsumeKeywords(KeywordOffset) {
-			offset, err = p.parseExpr(p.Pos())
+			offset, err = p.parseLimitOperand()
 		} else if p.tryConsumeTokenKind(TokenKindComma) != nil {
 			offset = limit
-			limit, err = p.parseExpr(p.Pos())
+			limit, err = p.parseLimitOperand()
 		}
 	} else if p.tryConsumeKeywords(KeywordOffset) {
-		offset, err = p.parseExpr(p.Pos())
+		offset, err = p.parseLimitOperand()
 	}
 
 	if err != nil {
@@ -670,6 +670,19 @@ func (p *Parser) parseLimitClause(pos Pos) (*LimitClause, error) {
 	}, nil
 }
 
+// parseLimitOperand parses the operand of LIMIT or OFFSET. A query there has to
+// be parenthesised: a bare one would swallow the clauses after it.
+func (p *Parser) parseLimitOperand() (Expr, error) {
+	expr, err := p.parseExpr(p.Pos())
+	if err != nil {
+		return nil, err
+	}
+	if _, ok := expr.(*SelectQuery); ok {
+		return nil, errors.New("a query in LIMIT or OFFSET must be parenthesised")
+	}
+	return expr, nil
+}
+
 func (p *Parser) tryParseLimitByClause(pos Pos) (Expr, error) {
 	if !p.matchKeyword(KeywordLimit) {
 		return nil, nil
-- 
2.43.0


From 0c9d41c984e449cb8f4ea6a03e334f7d17b6dd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:41 +0000
Subject: [PATCH 82/85] fix: a keyword used as a column may stand before LIMIT
 ... BY

LIMIT select, 3 BY c was accepted and formatted as LIMIT 3 OFFSET select BY c,
which did not parse.
---
 parser/parser_column.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index ffe3f19..635a5a0 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -581,10 +581,11 @@ func (p *Parser) parseColumnExpr(pos Pos) (Expr, error) { //nolint:funlen
 	// identifies these as identifier uses. The end-of-statement disambiguator
 	// is only valid in expression position, so it's applied inline here
 	// rather than in keywordIsSelectItemIdentifier (which is shared with the
-	// terminator/alias check).
+	// terminator/alias check). So is BY, which follows the operand of
+	// LIMIT ... BY.
 	if p.keywordIsSelectItemIdentifier() ||
 		(p.matchTokenKind(TokenKindKeyword) &&
-			(p.peekIsEndOfStatement() || p.peekIsExpressionContinuation())) {
+			(p.peekIsEndOfStatement() || p.peekIsExpressionContinuation() || p.peekKeyword(KeywordBy))) {
 		return p.parseAnyKeyword()
 	}
 	switch {
-- 
2.43.0


From 0ddf6c2d83051484d67625712c3554833948af69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:38 +0000
Subject: [PATCH 83/85] fix: the words of a role setting are read in any letter
 case

---
 parser/parse_system.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index d5aa9ea..9db79ce 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -436,7 +436,8 @@ func (p *Parser) parseRoleSetting(_ Pos) (*RoleSetting, error) {
 		if err != nil {
 			return nil, err
 		}
-		switch name.Name {
+		keyword := strings.ToUpper(name.Name)
+		switch keyword {
 		case "NONE", "READABLE", "WRITABLE", "CONST", "CHANGEABLE_IN_READONLY":
 			return &RoleSetting{
 				Modifier:     name,
@@ -459,7 +460,7 @@ func (p *Parser) parseRoleSetting(_ Pos) (*RoleSetting, error) {
 			// docs: https://clickhouse.com/docs/en/sql-reference/statements/alter/role
 			// the operator "=" was required if the variable name is NOT in
 			// ["MIN", "MAX", "PROFILE"] and value is existed.
-			if value != nil && name.Name != "MIN" && name.Name != "MAX" && name.Name != "PROFILE" && op != TokenKindSingleEQ {
+			if value != nil && keyword != "MIN" && keyword != "MAX" && keyword != "PROFILE" && op != TokenKindSingleEQ {
 				return nil, fmt.Errorf("expected operator = or no value, but got %s", op)
 			}
 			pairs = append(pairs, &SettingPair{
-- 
2.43.0


From 2ad592ba00ea7d8b0e7279aeba2bf1b1b1e18c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:24 +0000
Subject: [PATCH 84/85] fix: a line break in a quoted token of an index
 expression stays as it is

---
 parser/format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/format.go b/parser/format.go
index 999017a..8529890 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -2697,7 +2697,7 @@ func (a *TableIndex) formatDefinition(formatter *Formatter) {
 	if len(columnExprStr) > 0 && columnExprStr[0] != '(' {
 		formatter.WriteByte(whitespace)
 	}
-	formatter.WriteString(columnExprStr)
+	formatter.writeVerbatim(columnExprStr)
 	formatter.WriteByte(whitespace)
 	formatter.WriteString("TYPE")
 	formatter.WriteByte(whitespace)
-- 
2.43.0


From 0b407107956aec192095b8f447fa7a8e61db756b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:50 +0000
Subject: [PATCH 85/85] fix: a quoted setting name of a role is never read as a
 constraint word

---
 parser/parse_system.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index 9db79ce..48c4a2a 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -436,7 +436,10 @@ func (p *Parser) parseRoleSetting(_ Pos) (*RoleSetting, error) {
 		if err != nil {
 			return nil, err
 		}
-		keyword := strings.ToUpper(name.Name)
+		keyword := ""
+		if name.QuoteType == Unquoted {
+			keyword = strings.ToUpper(name.Name)
+		}
 		switch keyword {
 		case "NONE", "READABLE", "WRITABLE", "CONST", "CHANGEABLE_IN_READONLY":
 			return &RoleSetting{
-- 
2.43.0

