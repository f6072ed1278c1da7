From 1e69b4a1bf809b15bae46a0e2f4dfb078773960b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:57 +0000
Subject: [PATCH 01/25] fix: track classes, not selector strings, so classes
 sharing a rule are not confused

Two classes registered for the same rule (.a.b {}) have the same selector
string; keeping only the last class per selector string dropped the other
one from the output.
---
 merge.go | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/merge.go b/merge.go
index 8cd99b9..b995aaa 100644
--- a/merge.go
+++ b/merge.go
@@ -212,14 +212,13 @@ func (r *Merger) Merge(inClass string) string {
 	}
 
 	keepClasses := make([]string, 0, len(split))
-	selectorToClass := make(map[string]string, len(split))
 
 	// propsToClasses is a map of properties that are shared between classes
 	// The property name may have a condition (pseudo or media) appended to it (e.g., "height:hover": ["h-10", "h-20"])
-	propsToSelectors := make(map[string]string, len(split))
-	importantPropsToSelectors := make(map[string]string, len(split))
-	customVarsToSelectors := make(map[string]string, len(split)) // map of custom vars to the class that set them
-	propsToCustomVars := make(map[string][]string, len(split))   // map of props to the custom vars that it uses
+	propsToClasses := make(map[string]string, len(split))
+	importantPropsToClasses := make(map[string]string, len(split))
+	customVarsToClasses := make(map[string]string, len(split)) // map of custom vars to the class that set them
+	propsToCustomVars := make(map[string][]string, len(split)) // map of props to the custom vars that it uses
 	for _, class := range split {
 		rule, ok := r.rules[class]
 		if !ok {
@@ -228,7 +227,6 @@ func (r *Merger) Merge(inClass string) string {
 			continue
 		}
 
-		selectorToClass[rule.Selector.String()] = class
 		propMod := propModifier(class, rule)
 
 		for _, prop := range r.getAffectedProps(rule) {
@@ -246,45 +244,42 @@ func (r *Merger) Merge(inClass string) string {
 
 				// if the property is marked !important, add the class to the importantProps map
 				if importantRegex.MatchString(dec.Value) {
-					importantPropsToSelectors[prop] = rule.Selector.String()
+					importantPropsToClasses[prop] = class
 				}
 			}
 
 			// if it has a custom prop, add it to the customVars map
 			if strings.HasPrefix(prop, "--") {
-				customVarsToSelectors[prop] = rule.Selector.String()
+				customVarsToClasses[prop] = class
 				continue
 			}
 
 			// add all classes to the propsToClasses map
-			propsToSelectors[prop] = rule.Selector.String()
+			propsToClasses[prop] = class
 		}
 	}
 
 	// keep the last class in the list for each property
 	// importantly, this keeps classes that uniquely define a property, even if it has properties that conflict with other classes
-	for _, sel := range propsToSelectors {
-		class := selectorToClass[sel]
+	for _, class := range propsToClasses {
 		keepClasses = append(keepClasses, class)
 	}
 
 	// If a class has an !important property, it is kept unless another class comes later in the class string and it is marked !important on the same property.
-	for _, sel := range importantPropsToSelectors {
+	for _, class := range importantPropsToClasses {
 		// This does not remove the class that the the important class is overriding,
 		// but it shouldn't matter because the important class will override the other,
 		// and the other class may have other properties that are not being overridden
-		class := selectorToClass[sel]
 		keepClasses = append(keepClasses, class)
 	}
 
 	// keep the class that sets the last definition of each custom property if that custom property is actually used
-	for custVar, sel := range customVarsToSelectors {
+	for custVar, class := range customVarsToClasses {
 		for _, vars := range propsToCustomVars {
 			// if the custom property is actually used, keep the class that sets it
 			if !slices.Contains(vars, custVar) {
 				continue
 			}
-			class := selectorToClass[sel]
 			keepClasses = append(keepClasses, class)
 			break
 		}
-- 
2.43.0


From 16324ae8e9105a167c08cc3c1e2c3e92c2181d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:28 +0000
Subject: [PATCH 02/25] fix: keep the condition apart from the property name
 when comparing properties

Concatenating both made a custom property set under a condition
(hover:o { --x }) never match the var(--x) that uses it, so the class was
dropped, and made different pairs with the same concatenation collide.
---
 merge.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/merge.go b/merge.go
index b995aaa..36673d6 100644
--- a/merge.go
+++ b/merge.go
@@ -192,6 +192,12 @@ func propModifier(class string, rule cascadia.CssRule) string {
 	}
 }
 
+// propKey identifies a property in the circumstance in which it is set.
+type propKey struct {
+	name     string // name of the property
+	modifier string // circumstance, see propModifier
+}
+
 // Merge resolves conflicting css class rules.
 // It takes a string of space-separated class names.
 // Returns a string of space-separated class names with the conflicting classes removed.
@@ -214,11 +220,11 @@ func (r *Merger) Merge(inClass string) string {
 	keepClasses := make([]string, 0, len(split))
 
 	// propsToClasses is a map of properties that are shared between classes
-	// The property name may have a condition (pseudo or media) appended to it (e.g., "height:hover": ["h-10", "h-20"])
-	propsToClasses := make(map[string]string, len(split))
-	importantPropsToClasses := make(map[string]string, len(split))
-	customVarsToClasses := make(map[string]string, len(split)) // map of custom vars to the class that set them
-	propsToCustomVars := make(map[string][]string, len(split)) // map of props to the custom vars that it uses
+	// The property name is qualified by its condition (pseudo or media) (e.g., {"height", ":hover"}: "h-20")
+	propsToClasses := make(map[propKey]string, len(split))
+	importantPropsToClasses := make(map[propKey]string, len(split))
+	customVarsToClasses := make(map[propKey]string, len(split)) // map of custom vars to the class that set them
+	propsToCustomVars := make(map[propKey][]string, len(split)) // map of props to the custom vars that it uses
 	for _, class := range split {
 		rule, ok := r.rules[class]
 		if !ok {
@@ -229,13 +235,13 @@ func (r *Merger) Merge(inClass string) string {
 
 		propMod := propModifier(class, rule)
 
-		for _, prop := range r.getAffectedProps(rule) {
+		for _, name := range r.getAffectedProps(rule) {
 
-			prop = prop + propMod
+			prop := propKey{name: name, modifier: propMod}
 
 			for _, dec := range rule.Declarations {
 
-				if !strings.HasPrefix(prop, "--") {
+				if !strings.HasPrefix(name, "--") {
 					// if the property has a custom var, add it to the propsToCustomVars map
 					customVars := getCustomVarsInDec(dec)
 					// overwrite the customVars so we prioritize the last class that sets the property
@@ -249,7 +255,7 @@ func (r *Merger) Merge(inClass string) string {
 			}
 
 			// if it has a custom prop, add it to the customVars map
-			if strings.HasPrefix(prop, "--") {
+			if strings.HasPrefix(name, "--") {
 				customVarsToClasses[prop] = class
 				continue
 			}
@@ -277,7 +283,7 @@ func (r *Merger) Merge(inClass string) string {
 	for custVar, class := range customVarsToClasses {
 		for _, vars := range propsToCustomVars {
 			// if the custom property is actually used, keep the class that sets it
-			if !slices.Contains(vars, custVar) {
+			if !slices.Contains(vars, custVar.name) {
 				continue
 			}
 			keepClasses = append(keepClasses, class)
-- 
2.43.0


From a2670e82c6506bec99e95b8a5a4a16b2b8c22d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:29 +0000
Subject: [PATCH 03/25] fix: attribute !important and var() uses only to the
 properties a declaration sets

Every declaration of a rule was scanned for every property of the rule, so
the last declaration overwrote the custom properties used by the others and
one !important declaration made all properties of the rule important.
---
 merge.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/merge.go b/merge.go
index 36673d6..00901ea 100644
--- a/merge.go
+++ b/merge.go
@@ -128,6 +128,15 @@ func (r *Merger) getAffectedProps(rule cascadia.CssRule) []string {
 	return unique(affectedProps)
 }
 
+// affectsProp returns true if the declaration sets the property, directly or as a shorthand.
+func (r *Merger) affectsProp(dec cascadia.CssDeclaration, name string) bool {
+	prop, ok := r.properties[dec.Property]
+	if !ok {
+		return dec.Property == name
+	}
+	return slices.Contains(prop.ComputedProps(), name)
+}
+
 var importantRegex = regexp.MustCompile(`!important`)      // matches !important in a css declaration value
 var customVarRegex = regexp.MustCompile(`var\((--[\w-]+)`) // matches custom variables in a css declaration value
 
@@ -241,6 +250,11 @@ func (r *Merger) Merge(inClass string) string {
 
 			for _, dec := range rule.Declarations {
 
+				// a declaration only matters to the properties that it sets
+				if !r.affectsProp(dec, name) {
+					continue
+				}
+
 				if !strings.HasPrefix(name, "--") {
 					// if the property has a custom var, add it to the propsToCustomVars map
 					customVars := getCustomVarsInDec(dec)
-- 
2.43.0


From 3a04c0bed37f079ff854476209a27c51e8276acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:29 +0000
Subject: [PATCH 04/25] fix: count var() in the definition of a custom property
 as a use

A custom property that is only used through another one
(--stops: var(--from), var(--to)) was treated as unused and the class that
sets it was dropped.
---
 merge.go | 41 ++++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/merge.go b/merge.go
index 00901ea..b799458 100644
--- a/merge.go
+++ b/merge.go
@@ -255,12 +255,10 @@ func (r *Merger) Merge(inClass string) string {
 					continue
 				}
 
-				if !strings.HasPrefix(name, "--") {
-					// if the property has a custom var, add it to the propsToCustomVars map
-					customVars := getCustomVarsInDec(dec)
-					// overwrite the customVars so we prioritize the last class that sets the property
-					propsToCustomVars[prop] = customVars
-				}
+				// if the property has a custom var, add it to the propsToCustomVars map
+				customVars := getCustomVarsInDec(dec)
+				// overwrite the customVars so we prioritize the last class that sets the property
+				propsToCustomVars[prop] = customVars
 
 				// if the property is marked !important, add the class to the importantProps map
 				if importantRegex.MatchString(dec.Value) {
@@ -293,18 +291,35 @@ func (r *Merger) Merge(inClass string) string {
 		keepClasses = append(keepClasses, class)
 	}
 
-	// keep the class that sets the last definition of each custom property if that custom property is actually used
-	for custVar, class := range customVarsToClasses {
-		for _, vars := range propsToCustomVars {
-			// if the custom property is actually used, keep the class that sets it
-			if !slices.Contains(vars, custVar.name) {
+	// collect the custom properties that are used, either directly or to define another custom property that is used
+	usedVars := make([]string, 0, len(split))
+	for prop, vars := range propsToCustomVars {
+		if !strings.HasPrefix(prop.name, "--") {
+			usedVars = append(usedVars, vars...)
+		}
+	}
+	for i := 0; i < len(usedVars); i++ {
+		for prop, vars := range propsToCustomVars {
+			if prop.name != usedVars[i] {
 				continue
 			}
-			keepClasses = append(keepClasses, class)
-			break
+			for _, v := range vars {
+				if !slices.Contains(usedVars, v) {
+					usedVars = append(usedVars, v)
+				}
+			}
 		}
 	}
 
+	// keep the class that sets the last definition of each custom property if that custom property is actually used
+	for custVar, class := range customVarsToClasses {
+		// if the custom property is actually used, keep the class that sets it
+		if !slices.Contains(usedVars, custVar.name) {
+			continue
+		}
+		keepClasses = append(keepClasses, class)
+	}
+
 	keepClasses = unique(keepClasses)
 	if r.keepSort {
 		sortSubset(keepClasses, split)
-- 
2.43.0


From 1070155e12101375ca3862fd24e743f945ebd995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:30 +0000
Subject: [PATCH 05/25] fix: keep the custom properties used by an !important
 declaration

A later class setting the same property without !important overwrote the
set of custom properties the property uses, so the class defining the one
used by the winning !important declaration was dropped.
---
 merge.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/merge.go b/merge.go
index b799458..181a097 100644
--- a/merge.go
+++ b/merge.go
@@ -255,13 +255,19 @@ func (r *Merger) Merge(inClass string) string {
 					continue
 				}
 
+				// a declaration does not override an !important one unless it is !important itself
+				important := importantRegex.MatchString(dec.Value)
+				if _, ok := importantPropsToClasses[prop]; ok && !important {
+					continue
+				}
+
 				// if the property has a custom var, add it to the propsToCustomVars map
 				customVars := getCustomVarsInDec(dec)
 				// overwrite the customVars so we prioritize the last class that sets the property
 				propsToCustomVars[prop] = customVars
 
 				// if the property is marked !important, add the class to the importantProps map
-				if importantRegex.MatchString(dec.Value) {
+				if important {
 					importantPropsToClasses[prop] = class
 				}
 			}
-- 
2.43.0


From 4a12c06e681c14dd045cf3d892d3606282d7ff82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:51 +0000
Subject: [PATCH 06/25] fix: compare compound and complex selectors only within
 the same at-rule

The condition of the at-rule was only considered for plain class selectors,
so md:hover:p-2 and hover:p-2 were treated as conflicting.
---
 internal/cascadia/rules.go | 5 +++++
 merge.go                   | 5 +++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 09c55d2..759cc1f 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -50,6 +50,11 @@ func (r CssRule) GetCondition() string {
 	return r.condition
 }
 
+// AtRuleCondition returns the condition of the at-rule (e.g., @media) that the rule is in, if any.
+func (r CssRule) AtRuleCondition() string {
+	return r.condition
+}
+
 func (r CssRule) ToCssFormat() string {
 	dec := strings.Builder{}
 	for i, d := range r.Declarations {
diff --git a/merge.go b/merge.go
index 181a097..24015dd 100644
--- a/merge.go
+++ b/merge.go
@@ -204,6 +204,7 @@ func propModifier(class string, rule cascadia.CssRule) string {
 // propKey identifies a property in the circumstance in which it is set.
 type propKey struct {
 	name     string // name of the property
+	atRule   string // condition of the at-rule that the rule is in (e.g., @media)
 	modifier string // circumstance, see propModifier
 }
 
@@ -229,7 +230,7 @@ func (r *Merger) Merge(inClass string) string {
 	keepClasses := make([]string, 0, len(split))
 
 	// propsToClasses is a map of properties that are shared between classes
-	// The property name is qualified by its condition (pseudo or media) (e.g., {"height", ":hover"}: "h-20")
+	// The property name is qualified by its condition (pseudo or media) (e.g., {"height", "(min-width:640px)", ":hover"}: "h-20")
 	propsToClasses := make(map[propKey]string, len(split))
 	importantPropsToClasses := make(map[propKey]string, len(split))
 	customVarsToClasses := make(map[propKey]string, len(split)) // map of custom vars to the class that set them
@@ -246,7 +247,7 @@ func (r *Merger) Merge(inClass string) string {
 
 		for _, name := range r.getAffectedProps(rule) {
 
-			prop := propKey{name: name, modifier: propMod}
+			prop := propKey{name: name, atRule: rule.AtRuleCondition(), modifier: propMod}
 
 			for _, dec := range rule.Declarations {
 
-- 
2.43.0


From c293e4280a83bd63b046979a1096444eff48bdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:52 +0000
Subject: [PATCH 07/25] fix: do not treat a pseudo-element as the element
 itself

The pseudo-element was left out of the condition of a compound selector, so
a class styling ::before conflicted with one styling the element or ::after.
---
 internal/cascadia/selector.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/cascadia/selector.go b/internal/cascadia/selector.go
index 8981252..9359b9b 100644
--- a/internal/cascadia/selector.go
+++ b/internal/cascadia/selector.go
@@ -440,6 +440,9 @@ func (c CompoundSelector) PseudoElementsString() string {
 		strs = append(strs, sel.String())
 	}
 	slices.Sort[[]string](strs)
+	if c.pseudoElement != "" {
+		strs = append(strs, "::"+c.pseudoElement)
+	}
 	return strings.Join(strs, "")
 }
 
-- 
2.43.0


From f93a44144d61027261b09ba3c57abdc7deac05b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:13 +0000
Subject: [PATCH 08/25] fix: treat class:is(...) and class:where(...) as
 conditional

The selectors inside :is() and :where() were looked at instead of the
pseudo-class itself, which is not part of the condition string, so
.a:is(:hover) conflicted with .b.
---
 merge.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/merge.go b/merge.go
index 24015dd..21ae00b 100644
--- a/merge.go
+++ b/merge.go
@@ -159,12 +159,11 @@ func getCustomVarsInDec(dec cascadia.CssDeclaration) []string {
 // with a class and one or more pseudo element or class.
 // It returns true if the selector is a class with pseudo elements or classes.
 func classWithPseudo(sel cascadia.Sel) bool {
-	_, ok := sel.(cascadia.CompoundSelector)
+	compound, ok := sel.(cascadia.CompoundSelector)
 	if !ok {
 		return false
 	}
-	selectors := walk(sel)
-	for i, s := range selectors {
+	for i, s := range compound.Selectors() {
 		if i == 0 {
 			_, firstIsClass := s.(cascadia.ClassSelector)
 			if !firstIsClass {
-- 
2.43.0


From c86cf72ba0d1178c12ed819dede27862b5195842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:14 +0000
Subject: [PATCH 09/25] fix: accept at-rules without a condition

A stylesheet with an empty media query (@media { ... }), which is valid and
always applies, made the parser panic.
---
 internal/cascadia/rules.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 759cc1f..76a7bee 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -88,9 +88,6 @@ func parseAtRuleName(data []byte, values []css.Token) (string, string) {
 	if string(data) != "@media" && string(data) != "@supports" {
 		return "", ""
 	}
-	if len(values) == 0 {
-		panic("no values")
-	}
 	ruleBuilder := strings.Builder{}
 	for _, val := range values {
 		ruleBuilder.Write(val.Data)
-- 
2.43.0


From c11e58379b5a9ae1ed1a619015559b8b4ed0e3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:15 +0000
Subject: [PATCH 10/25] fix: stop at the end of the input while skipping a rule

When a malformed block ended the input, the end of the skipped rule was
never reported and the parser looped forever.
---
 internal/cascadia/rules.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 76a7bee..3edb0a2 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -139,11 +139,13 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 	ruleSetErr := false
 	for {
 		gt, _, data := p.Next()
-		if ignore && gt != css.EndAtRuleGrammar {
+		// there is nothing left to skip at the end of the input
+		eof := gt == css.ErrorGrammar && !p.HasParseError()
+		if ignore && gt != css.EndAtRuleGrammar && !eof {
 			continue
 		}
 
-		if ruleSetErr && gt != css.EndRulesetGrammar {
+		if ruleSetErr && gt != css.EndRulesetGrammar && !eof {
 			continue
 		} else if ruleSetErr && gt == css.EndRulesetGrammar {
 			ruleSetErr = false
-- 
2.43.0


From f3047ef46931023ba32e197016d2e8c543297d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:53 +0000
Subject: [PATCH 11/25] fix: take all enclosing at-rules into account

The condition of a nested at-rule replaced the outer one, and its end made
the rest of the outer at-rule look unconditional (or no longer skipped).
---
 internal/cascadia/rules.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 3edb0a2..0651433 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -135,13 +135,14 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 	var err error
 	var currentRule CssRule
 	var atRuleCondition string
-	ignore := false
+	var outerConditions []string // conditions to go back to at the end of each open at-rule
+	ignore := 0                  // number of at-rules being skipped
 	ruleSetErr := false
 	for {
 		gt, _, data := p.Next()
 		// there is nothing left to skip at the end of the input
 		eof := gt == css.ErrorGrammar && !p.HasParseError()
-		if ignore && gt != css.EndAtRuleGrammar && !eof {
+		if ignore > 0 && gt != css.BeginAtRuleGrammar && gt != css.EndAtRuleGrammar && !eof {
 			continue
 		}
 
@@ -163,15 +164,22 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 			return rules, err
 		case css.BeginAtRuleGrammar:
 			name, condition := parseAtRuleName(data, p.Values())
-			if name == "" {
-				atRuleCondition = ""
-				ignore = true
+			if name == "" || ignore > 0 {
+				ignore++
 				continue
 			}
-			atRuleCondition = condition
+			outerConditions = append(outerConditions, atRuleCondition)
+			if atRuleCondition != "" && condition != "" {
+				atRuleCondition += "{"
+			}
+			atRuleCondition += condition
 		case css.EndAtRuleGrammar:
-			atRuleCondition = ""
-			ignore = false
+			if ignore > 0 {
+				ignore--
+			} else if last := len(outerConditions) - 1; last >= 0 {
+				atRuleCondition = outerConditions[last]
+				outerConditions = outerConditions[:last]
+			}
 		case css.BeginRulesetGrammar:
 			currentRule = CssRule{}
 			currentRule.condition = atRuleCondition
-- 
2.43.0


From d075e4c1bf2a0a90c57c22f34a5e5723d4b928f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:08 +0000
Subject: [PATCH 12/25] fix: register every selector of a group

The selectors before the last comma of a group (.a, .b {}) were ignored, and
commas inside :is() and the like cut the selector in pieces.
---
 internal/cascadia/rules.go | 45 +++++++++++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 0651433..b9f19ff 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -82,6 +82,26 @@ func getSelector(data []byte, tokens []css.Token) (Sel, error) {
 	return casc, err
 }
 
+// splitSelectorGroup splits the tokens of a group of selectors at its top-level commas
+func splitSelectorGroup(tokens []css.Token) [][]css.Token {
+	var group [][]css.Token
+	start, level := 0, 0
+	for i, val := range tokens {
+		switch val.TokenType {
+		case css.LeftParenthesisToken, css.LeftBracketToken, css.FunctionToken:
+			level++
+		case css.RightParenthesisToken, css.RightBracketToken:
+			level--
+		case css.CommaToken:
+			if level == 0 {
+				group = append(group, tokens[start:i])
+				start = i + 1
+			}
+		}
+	}
+	return append(group, tokens[start:])
+}
+
 // parses the name of an at-rule and its values if it's a media query
 // @media (min-width: 600px) { /* styles */ } => "media", "(min-width: 600px)"
 func parseAtRuleName(data []byte, values []css.Token) (string, string) {
@@ -134,6 +154,8 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 	rules := make([]CssRule, 0)
 	var err error
 	var currentRule CssRule
+	var prelude []css.Token // tokens of a group of selectors, up to its last comma
+	var selectors []Sel     // selectors of the current rule
 	var atRuleCondition string
 	var outerConditions []string // conditions to go back to at the end of each open at-rule
 	ignore := 0                  // number of at-rules being skipped
@@ -180,22 +202,35 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 				atRuleCondition = outerConditions[last]
 				outerConditions = outerConditions[:last]
 			}
+		case css.QualifiedRuleGrammar:
+			prelude = append(prelude, p.Values()...)
+			prelude = append(prelude, css.Token{TokenType: css.CommaToken, Data: []byte(",")})
 		case css.BeginRulesetGrammar:
 			currentRule = CssRule{}
 			currentRule.condition = atRuleCondition
-			sel, err := getSelector(data, p.Values())
-			if err != nil {
-				log.Println("error parsing rule:", err) // TODO: LOG this better
+			selectors = nil
+			for _, tokens := range splitSelectorGroup(append(prelude, p.Values()...)) {
+				sel, err := getSelector(data, tokens)
+				if err != nil {
+					log.Println("error parsing rule:", err) // TODO: LOG this better
+					continue
+				}
+				selectors = append(selectors, sel)
+			}
+			prelude = nil
+			if len(selectors) == 0 {
 				ruleSetErr = true
 				currentRule = CssRule{}
 				continue
 			}
-			currentRule.Selector = sel
 		case css.DeclarationGrammar:
 			declaration := buildDeclaration(p, data)
 			currentRule.Declarations = append(currentRule.Declarations, declaration)
 		case css.EndRulesetGrammar:
-			rules = append(rules, currentRule)
+			for _, sel := range selectors {
+				currentRule.Selector = sel
+				rules = append(rules, currentRule)
+			}
 		case css.CustomPropertyGrammar:
 			declaration := buildDeclaration(p, data)
 			currentRule.Declarations = append(currentRule.Declarations, declaration)
-- 
2.43.0


From a38ea7dc45a40328435f92acf730563bf7340055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:42 +0000
Subject: [PATCH 13/25] fix: recognise all spellings of !important and var()

Both are case-insensitive and white space is allowed after the ! and the
parenthesis.
---
 merge.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/merge.go b/merge.go
index 21ae00b..571ea7f 100644
--- a/merge.go
+++ b/merge.go
@@ -137,8 +137,8 @@ func (r *Merger) affectsProp(dec cascadia.CssDeclaration, name string) bool {
 	return slices.Contains(prop.ComputedProps(), name)
 }
 
-var importantRegex = regexp.MustCompile(`!important`)      // matches !important in a css declaration value
-var customVarRegex = regexp.MustCompile(`var\((--[\w-]+)`) // matches custom variables in a css declaration value
+var importantRegex = regexp.MustCompile(`(?i)!\s*important`)      // matches !important in a css declaration value
+var customVarRegex = regexp.MustCompile(`(?i)var\(\s*(--[\w-]+)`) // matches custom variables in a css declaration value
 
 func getCustomVarsInDec(dec cascadia.CssDeclaration) []string {
 	matches := customVarRegex.FindAllStringSubmatch(dec.Value, -1)
-- 
2.43.0


From a3a706b4076ac05d6c6caac4b6d13973b764947a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:58 +0000
Subject: [PATCH 14/25] fix: recognise custom properties with escapes or
 non-ASCII letters in their name

The class defining them was dropped because only a prefix of the name was
found in var().
---
 internal/cascadia/rules.go | 2 +-
 merge.go                   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index b9f19ff..1a049ec 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -244,6 +244,6 @@ func buildDeclaration(p *css.Parser, data []byte) CssDeclaration {
 		vals.Write(val.Data)
 	}
 	s := normalizeWhitespace(vals.String())
-	declaration := CssDeclaration{Property: string(data), Value: CssUnescape([]byte(s))}
+	declaration := CssDeclaration{Property: CssUnescape(data), Value: CssUnescape([]byte(s))}
 	return declaration
 }
diff --git a/merge.go b/merge.go
index 571ea7f..da326c9 100644
--- a/merge.go
+++ b/merge.go
@@ -137,8 +137,8 @@ func (r *Merger) affectsProp(dec cascadia.CssDeclaration, name string) bool {
 	return slices.Contains(prop.ComputedProps(), name)
 }
 
-var importantRegex = regexp.MustCompile(`(?i)!\s*important`)      // matches !important in a css declaration value
-var customVarRegex = regexp.MustCompile(`(?i)var\(\s*(--[\w-]+)`) // matches custom variables in a css declaration value
+var importantRegex = regexp.MustCompile(`(?i)!\s*important`)        // matches !important in a css declaration value
+var customVarRegex = regexp.MustCompile(`(?i)var\(\s*(--[^\s,)]+)`) // matches custom variables in a css declaration value
 
 func getCustomVarsInDec(dec cascadia.CssDeclaration) []string {
 	matches := customVarRegex.FindAllStringSubmatch(dec.Value, -1)
-- 
2.43.0


From b2d3c26b22a630e547b4b0ca5a05e0120d05cb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:59 +0000
Subject: [PATCH 15/25] fix: make SimpleCache.Clear safe for concurrent use

Overwriting the sync.Map raced with Get and Set, which use it without
holding the mutex.
---
 cache.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cache.go b/cache.go
index 5c9f60c..4bc0d35 100644
--- a/cache.go
+++ b/cache.go
@@ -33,5 +33,9 @@ func (c *SimpleCache) Set(key string, data string) {
 func (c *SimpleCache) Clear() {
 	c.mu.Lock()
 	defer c.mu.Unlock()
-	c.items = sync.Map{}
+	// the map itself must not be replaced: it may be in use by Get and Set
+	c.items.Range(func(key, _ any) bool {
+		c.items.Delete(key)
+		return true
+	})
 }
-- 
2.43.0


From dd0444dd37963e634dd87b4d2a93f0c59c3bf788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:24 +0000
Subject: [PATCH 16/25] fix: expand nested shorthands

border was only expanded to border-width, border-style and border-color and
not to border-top-width and so on, so border never overrode the latter, nor
did border-width override border.
---
 merge.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/merge.go b/merge.go
index da326c9..cbc52bb 100644
--- a/merge.go
+++ b/merge.go
@@ -44,11 +44,31 @@ func NewMerger(cache Cache, keepSort bool) *Merger {
 	return &Merger{
 		rules:      make(map[string]cascadia.CssRule),
 		cache:      cache,
-		properties: p,
+		properties: expandShorthands(p),
 		keepSort:   keepSort,
 	}
 }
 
+// expandShorthands replaces the shorthands that a shorthand sets (e.g., border sets border-width) by the properties
+// that they set in turn (e.g., border-top-width).
+func expandShorthands(properties map[string]props.Property) map[string]props.Property {
+	expanded := make(map[string]props.Property, len(properties))
+	for name, prop := range properties {
+		computed := slices.Clone(prop.Computed)
+		for i := 0; i < len(computed); {
+			nested, ok := properties[computed[i]]
+			if !ok || slices.Contains(nested.Computed, computed[i]) {
+				i++ // not a shorthand
+				continue
+			}
+			computed = slices.Replace(computed, i, i+1, nested.Computed...)
+		}
+		prop.Computed = computed
+		expanded[name] = prop
+	}
+	return expanded
+}
+
 // Rules returns the map of css class rules with class names as keys and CssRule structs as values
 func (r *Merger) Rules() map[string]cascadia.CssRule {
 	return r.rules
-- 
2.43.0


From 4d6727445dd54c9ad1053e862053541d04f2ea6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:05 +0000
Subject: [PATCH 17/25] fix: accept any white space between class names

Repeated spaces gave empty class names, which were put in the output, and
classes separated by tabs or new lines were taken as one unknown class.
---
 merge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/merge.go b/merge.go
index cbc52bb..4969137 100644
--- a/merge.go
+++ b/merge.go
@@ -241,7 +241,7 @@ func (r *Merger) Merge(inClass string) string {
 			return val
 		}
 	}
-	split := strings.Split(strings.TrimSpace(inClass), " ")
+	split := strings.Fields(inClass)
 	if len(split) < 2 {
 		return inClass
 	}
-- 
2.43.0


From e3b02240a4d5d519c1f4291a08e41890335e7990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:32 +0000
Subject: [PATCH 18/25] fix: limit the depth of selectors, whose parsing could
 exhaust the stack

---
 internal/cascadia/parser.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/internal/cascadia/parser.go b/internal/cascadia/parser.go
index 4591ef9..32b02d8 100644
--- a/internal/cascadia/parser.go
+++ b/internal/cascadia/parser.go
@@ -38,10 +38,18 @@ import (
 	"strings"
 )
 
+// Limits that keep recursive functions from exhausting the stack; no real
+// selector comes close to them.
+const (
+	maxNesting     = 1000 // selector groups inside one another
+	maxCombinators = 1000 // combinators in one selector
+)
+
 // a parser for CSS selectors
 type parser struct {
-	s string // the source text
-	i int    // the current position
+	s     string // the source text
+	i     int    // the current position
+	depth int    // the number of selector groups being parsed
 
 	// if `false`, parsing a pseudo-element
 	// returns an error.
@@ -470,6 +478,7 @@ var (
 	errExpectedParenthesis        = errors.New("expected '(' but didn't find it")
 	errExpectedClosingParenthesis = errors.New("expected ')' but didn't find it")
 	errUnmatchedParenthesis       = errors.New("unmatched '('")
+	errTooComplex                 = errors.New("selector is too complex")
 )
 
 // parsePseudoclassSelector parses a pseudoclass selector like :not(p) or a pseudo-element
@@ -890,7 +899,7 @@ func (p *parser) parseSelector() (Sel, error) {
 		return nil, err
 	}
 
-	for {
+	for n := 0; ; n++ {
 		var (
 			combinator byte
 			c          Sel
@@ -915,6 +924,9 @@ func (p *parser) parseSelector() (Sel, error) {
 		if combinator == 0 {
 			return result, nil
 		}
+		if n == maxCombinators {
+			return nil, errTooComplex
+		}
 
 		c, err = p.parseSimpleSelectorSequence()
 		if err != nil {
@@ -926,6 +938,12 @@ func (p *parser) parseSelector() (Sel, error) {
 
 // parseSelectorGroup parses a group of selectors, separated by commas.
 func (p *parser) parseSelectorGroup() (SelectorGroup, error) {
+	if p.depth == maxNesting {
+		return nil, errTooComplex
+	}
+	p.depth++
+	defer func() { p.depth-- }()
+
 	current, err := p.parseSelector()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From a3c8d7c420d7f33c26f8c925d2522d740cfb0a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:31 +0000
Subject: [PATCH 19/25] fix: remove the class, not the first text like it, from
 a complex selector

---
 internal/cascadia/selector.go | 33 +++++++++++++++++++++++++++++++++
 merge.go                      |  3 +--
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/internal/cascadia/selector.go b/internal/cascadia/selector.go
index 9359b9b..4bfb8f5 100644
--- a/internal/cascadia/selector.go
+++ b/internal/cascadia/selector.go
@@ -564,3 +564,36 @@ func (s SelectorGroup) Match(n *html.Node) bool {
 	}
 	return false
 }
+
+// WithoutClass returns the selector with the name removed from each selector of the given class,
+// except in :not() and :has().
+func WithoutClass(sel Sel, class string) Sel {
+	switch t := sel.(type) {
+	case ClassSelector:
+		if t.Class == class {
+			return ClassSelector{}
+		}
+	case CompoundSelector:
+		t.selectors = withoutClass(t.selectors, class)
+		return t
+	case CombinedSelector:
+		t.first = WithoutClass(t.first, class)
+		t.second = WithoutClass(t.second, class)
+		return t
+	case IsPseudoClassSelector:
+		t.match = withoutClass(t.match, class)
+		return t
+	case WherePseudoClassSelector:
+		t.match = withoutClass(t.match, class)
+		return t
+	}
+	return sel
+}
+
+func withoutClass(selectors []Sel, class string) []Sel {
+	out := make([]Sel, len(selectors))
+	for i, sel := range selectors {
+		out[i] = WithoutClass(sel, class)
+	}
+	return out
+}
diff --git a/merge.go b/merge.go
index 4969137..d08846a 100644
--- a/merge.go
+++ b/merge.go
@@ -215,8 +215,7 @@ func propModifier(class string, rule cascadia.CssRule) string {
 		return rule.GetCondition()
 	} else {
 		// use the selector with the class name removed to codify what the selector is being applied to
-		s := cascadia.CssUnescape([]byte(rule.Selector.String()))
-		return strings.Replace(s, class, "", 1)
+		return cascadia.WithoutClass(rule.Selector, class).String()
 	}
 }
 
-- 
2.43.0


From a75d7bc3fefca2034272e6829154502f0c044206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:32 +0000
Subject: [PATCH 20/25] fix: ignore repeated pseudo-classes when comparing
 circumstances

---
 internal/cascadia/selector.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/cascadia/selector.go b/internal/cascadia/selector.go
index 4bfb8f5..698ed70 100644
--- a/internal/cascadia/selector.go
+++ b/internal/cascadia/selector.go
@@ -440,6 +440,7 @@ func (c CompoundSelector) PseudoElementsString() string {
 		strs = append(strs, sel.String())
 	}
 	slices.Sort[[]string](strs)
+	strs = slices.Compact(strs) // nor does repeating one change it
 	if c.pseudoElement != "" {
 		strs = append(strs, "::"+c.pseudoElement)
 	}
-- 
2.43.0


From 9529ab80255a8a21c08c532995305cde383049c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:34 +0000
Subject: [PATCH 21/25] fix: keep the conditions of @media, @supports and
 selectors apart

---
 internal/cascadia/rules.go | 3 +++
 merge.go                   | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 1a049ec..2dccd49 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -112,6 +112,9 @@ func parseAtRuleName(data []byte, values []css.Token) (string, string) {
 	for _, val := range values {
 		ruleBuilder.Write(val.Data)
 	}
+	if string(data) == "@supports" {
+		return string(data), "@supports " + ruleBuilder.String() // not to be confused with a media query
+	}
 	return string(data), ruleBuilder.String()
 }
 
diff --git a/merge.go b/merge.go
index d08846a..a69baf7 100644
--- a/merge.go
+++ b/merge.go
@@ -210,7 +210,9 @@ func isClass(sel cascadia.Sel) bool {
 // This may be pseudo elements like hover, focus, etc. or, in the case of a combination selector,
 // it can be the selector with the class name removed
 func propModifier(class string, rule cascadia.CssRule) string {
-	if isClass(rule.Selector) || classWithPseudo(rule.Selector) {
+	if isClass(rule.Selector) {
+		return "" // it applies whenever its at-rule does
+	} else if classWithPseudo(rule.Selector) {
 		// if the rule has a condition (:hover, :focus, etc.), add the condition to the property name
 		return rule.GetCondition()
 	} else {
-- 
2.43.0


From 1ab1fc762a879cc8bea203a5f8fdb9807d0360bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:58 +0000
Subject: [PATCH 22/25] fix: write selectors unambiguously

---
 internal/cascadia/serialize.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/internal/cascadia/serialize.go b/internal/cascadia/serialize.go
index 45186fe..7180107 100644
--- a/internal/cascadia/serialize.go
+++ b/internal/cascadia/serialize.go
@@ -50,8 +50,13 @@ func init() {
 // espace special CSS char
 func escape(s string) string { return specialCharReplacer.Replace(s) }
 
+// quote a string, so that it ends where it should
+func quote(s string) string { return `"` + stringReplacer.Replace(s) + `"` }
+
+var stringReplacer = strings.NewReplacer(`\`, `\\`, `"`, `\"`, "\n", `\a `, "\r", `\d `, "\f", `\c `)
+
 func (c TagSelector) String() string {
-	return c.tag
+	return escape(c.tag)
 }
 
 func (c IdSelector) String() string {
@@ -67,7 +72,7 @@ func (c AttrSelector) String() string {
 	if c.operation == "#=" {
 		val = c.regexp.String()
 	} else if c.operation != "" {
-		val = fmt.Sprintf(`"%s"`, val)
+		val = quote(val)
 	}
 
 	ignoreCase := ""
@@ -76,7 +81,7 @@ func (c AttrSelector) String() string {
 		ignoreCase = " i"
 	}
 
-	return fmt.Sprintf(`[%s%s%s%s]`, c.key, c.operation, val, ignoreCase)
+	return fmt.Sprintf(`[%s%s%s%s]`, escape(c.key), c.operation, val, ignoreCase)
 }
 
 func (c IsPseudoClassSelector) String() string {
@@ -96,7 +101,7 @@ func (c ContainsPseudoClassSelector) String() string {
 	if c.own {
 		s += "Own"
 	}
-	return fmt.Sprintf(`:%s("%s")`, s, c.value)
+	return fmt.Sprintf(`:%s(%s)`, s, quote(c.value))
 }
 
 func (c RegexpPseudoClassSelector) String() string {
@@ -162,7 +167,7 @@ func (c LinkPseudoClassSelector) String() string {
 }
 
 func (c LangPseudoClassSelector) String() string {
-	return fmt.Sprintf(":lang(%s)", c.lang)
+	return fmt.Sprintf(":lang(%s)", escape(c.lang))
 }
 
 func (c EnabledPseudoClassSelector) String() string {
-- 
2.43.0


From d1530c2a867c525a948c6c53cd570c95b71cb926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:28 +0000
Subject: [PATCH 23/25] fix: decode hexadecimal escapes when unescaping

---
 internal/cascadia/rules.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 2dccd49..705720a 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -137,8 +137,16 @@ func CssUnescape(b []byte) string {
 
 foundEsc:
 	inEsc := false
+	p := parser{s: string(b)}
 	for ; i < len(b); i++ {
 		if b[i] == '\\' && !inEsc {
+			if i+1 < len(b) && hexDigit(b[i+1]) {
+				p.i = i
+				char, _ := p.parseEscape()
+				buf.WriteString(char)
+				i = p.i - 1
+				continue
+			}
 			inEsc = true
 			continue
 		}
-- 
2.43.0


From 84f57ba78a26e8a25325fbba2c39dadb252e1a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:25 +0000
Subject: [PATCH 24/25] fix: read !important and var() before unescaping, and
 not in strings and comments

---
 internal/cascadia/rules.go |  2 +-
 merge.go                   | 16 +++++++++++-----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 705720a..a276467 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -255,6 +255,6 @@ func buildDeclaration(p *css.Parser, data []byte) CssDeclaration {
 		vals.Write(val.Data)
 	}
 	s := normalizeWhitespace(vals.String())
-	declaration := CssDeclaration{Property: CssUnescape(data), Value: CssUnescape([]byte(s))}
+	declaration := CssDeclaration{Property: CssUnescape(data), Value: s}
 	return declaration
 }
diff --git a/merge.go b/merge.go
index a69baf7..dc3b584 100644
--- a/merge.go
+++ b/merge.go
@@ -157,8 +157,14 @@ func (r *Merger) affectsProp(dec cascadia.CssDeclaration, name string) bool {
 	return slices.Contains(prop.ComputedProps(), name)
 }
 
-var importantRegex = regexp.MustCompile(`(?i)!\s*important`)        // matches !important in a css declaration value
-var customVarRegex = regexp.MustCompile(`(?i)var\(\s*(--[^\s,)]+)`) // matches custom variables in a css declaration value
+const space = `(?:\s|` + comment + `)*` // matches white space and comments
+const comment = `/\*(?:[^*]|\*+[^*/])*\*+/`
+
+var importantRegex = regexp.MustCompile(`(?i)!` + space + `important` + space + `$`) // matches !important in a css declaration value
+
+// customVarRegex matches custom variables in a css declaration value, as well as strings and comments
+var customVarRegex = regexp.MustCompile(`(?i)"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'|` + comment +
+	`|var\(` + space + `(--(?:\\[0-9a-f]{1,6}\s?|\\.|[^\s,)/\\])+)`)
 
 func getCustomVarsInDec(dec cascadia.CssDeclaration) []string {
 	matches := customVarRegex.FindAllStringSubmatch(dec.Value, -1)
@@ -167,10 +173,10 @@ func getCustomVarsInDec(dec cascadia.CssDeclaration) []string {
 	}
 	vars := make([]string, 0, len(matches))
 	for _, match := range matches {
-		if len(match) < 2 {
-			continue
+		if len(match) < 2 || match[1] == "" {
+			continue // a string or a comment
 		}
-		vars = append(vars, match[1])
+		vars = append(vars, cascadia.CssUnescape([]byte(match[1])))
 	}
 	return vars
 }
-- 
2.43.0


From b2e3f999440e553f4f7565bab5b5467b04801824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:38 +0000
Subject: [PATCH 25/25] fix: set aside the rules nested in a style rule, not
 the style rule itself

A style rule with an at-rule in it was dropped, and the rule nested there was
registered twice. In a style rule with an unparsable selector, the nested at-rule
ended the condition of the at-rules around it.
---
 internal/cascadia/rules.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index a276467..314829e 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -171,18 +171,25 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 	var outerConditions []string // conditions to go back to at the end of each open at-rule
 	ignore := 0                  // number of at-rules being skipped
 	ruleSetErr := false
+	inRuleset := false
+	nested := 0 // number of rules open in the rule being skipped
 	for {
 		gt, _, data := p.Next()
 		// there is nothing left to skip at the end of the input
 		eof := gt == css.ErrorGrammar && !p.HasParseError()
-		if ignore > 0 && gt != css.BeginAtRuleGrammar && gt != css.EndAtRuleGrammar && !eof {
+		if ignore > 0 && gt != css.BeginAtRuleGrammar && gt != css.EndAtRuleGrammar && !eof && !(inRuleset && gt == css.ErrorGrammar) {
 			continue
 		}
 
-		if ruleSetErr && gt != css.EndRulesetGrammar && !eof {
-			continue
-		} else if ruleSetErr && gt == css.EndRulesetGrammar {
+		if ruleSetErr && gt == css.EndRulesetGrammar && nested == 0 {
 			ruleSetErr = false
+		} else if ruleSetErr && !eof {
+			if gt == css.BeginRulesetGrammar {
+				nested++
+			} else if gt == css.EndRulesetGrammar {
+				nested--
+			}
+			continue
 		}
 
 		switch gt {
@@ -197,7 +204,7 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 			return rules, err
 		case css.BeginAtRuleGrammar:
 			name, condition := parseAtRuleName(data, p.Values())
-			if name == "" || ignore > 0 {
+			if name == "" || ignore > 0 || inRuleset { // rules nested in a rule are not supported
 				ignore++
 				continue
 			}
@@ -217,6 +224,7 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 			prelude = append(prelude, p.Values()...)
 			prelude = append(prelude, css.Token{TokenType: css.CommaToken, Data: []byte(",")})
 		case css.BeginRulesetGrammar:
+			inRuleset = true
 			currentRule = CssRule{}
 			currentRule.condition = atRuleCondition
 			selectors = nil
@@ -238,6 +246,7 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 			declaration := buildDeclaration(p, data)
 			currentRule.Declarations = append(currentRule.Declarations, declaration)
 		case css.EndRulesetGrammar:
+			inRuleset = false
 			for _, sel := range selectors {
 				currentRule.Selector = sel
 				rules = append(rules, currentRule)
-- 
2.43.0

