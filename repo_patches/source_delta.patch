From 95a69c0305bce737764b620ff065afc0dc084a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:20 +0000
Subject: [PATCH 01/21] fix: SimpleCache.Clear must not replace the map under
 concurrent Get/Set

---
 cache.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cache.go b/cache.go
index 5c9f60c..2112944 100644
--- a/cache.go
+++ b/cache.go
@@ -33,5 +33,9 @@ func (c *SimpleCache) Set(key string, data string) {
 func (c *SimpleCache) Clear() {
 	c.mu.Lock()
 	defer c.mu.Unlock()
-	c.items = sync.Map{}
+	// delete the entries one by one: replacing the map itself would race with Get and Set
+	c.items.Range(func(key, _ any) bool {
+		c.items.Delete(key)
+		return true
+	})
 }
-- 
2.43.0


From a2a7f5d35efd102b09e8143942ecc980b679e5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:21 +0000
Subject: [PATCH 02/21] fix: Merge must hold the lock while it reads rules and
 caches its result

---
 merge.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/merge.go b/merge.go
index 8cd99b9..ba63f6d 100644
--- a/merge.go
+++ b/merge.go
@@ -23,7 +23,7 @@ type Cache interface {
 
 // Merger is a struct that resolves conflicting css rules.
 type Merger struct {
-	mu         sync.Mutex // mutex is only used when adding rules
+	mu         sync.RWMutex // held exclusively when adding rules, shared when merging
 	rules      map[string]cascadia.CssRule
 	cache      Cache
 	properties map[string]props.Property
@@ -211,6 +211,11 @@ func (r *Merger) Merge(inClass string) string {
 		return inClass
 	}
 
+	// The lock is held until the result is cached, so a result computed from
+	// old rules cannot be cached after AddRules has cleared the cache.
+	r.mu.RLock()
+	defer r.mu.RUnlock()
+
 	keepClasses := make([]string, 0, len(split))
 	selectorToClass := make(map[string]string, len(split))
 
-- 
2.43.0


From afd74ac4891842b9df7166eeef7a934c59a855dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:21 +0000
Subject: [PATCH 03/21] fix: an at-rule with an empty prelude must not panic

---
 internal/cascadia/rules.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 09c55d2..8bf601b 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -83,9 +83,6 @@ func parseAtRuleName(data []byte, values []css.Token) (string, string) {
 	if string(data) != "@media" && string(data) != "@supports" {
 		return "", ""
 	}
-	if len(values) == 0 {
-		panic("no values")
-	}
 	ruleBuilder := strings.Builder{}
 	for _, val := range values {
 		ruleBuilder.Write(val.Data)
-- 
2.43.0


From a514cc409531e68beb2adb2b510f7e7aca85d5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:40 +0000
Subject: [PATCH 04/21] fix: ExtractRules must stop at the end of the input
 while skipping a block

---
 internal/cascadia/rules.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 8bf601b..4cfe3bf 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -127,13 +127,23 @@ func normalizeWhitespace(s string) string {
 func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 	p := css.NewParser(parse.NewInput(r), inline)
 	rules := make([]CssRule, 0)
-	var err error
 	var currentRule CssRule
 	var atRuleCondition string
 	ignore := false
 	ruleSetErr := false
 	for {
 		gt, _, data := p.Next()
+		if gt == css.ErrorGrammar && !p.HasParseError() {
+			// end of the input or a read error, also if a skipped block was never closed
+			err := p.Err()
+			if err == io.EOF {
+				err = nil
+			}
+			if err != nil {
+				err = fmt.Errorf("encountered error parsing CSS: %v", err)
+			}
+			return rules, err
+		}
 		if ignore && gt != css.EndAtRuleGrammar {
 			continue
 		}
@@ -146,14 +156,7 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 
 		switch gt {
 		case css.ErrorGrammar:
-			err = p.Err()
-			if err == io.EOF {
-				err = nil
-			}
-			if err != nil {
-				err = fmt.Errorf("encountered error parsing CSS: %v", err)
-			}
-			return rules, err
+			return rules, fmt.Errorf("encountered error parsing CSS: %v", p.Err())
 		case css.BeginAtRuleGrammar:
 			name, condition := parseAtRuleName(data, p.Values())
 			if name == "" {
-- 
2.43.0


From b2104ccccc0a4f9a56f4bd400f01274b37280205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:35 +0000
Subject: [PATCH 05/21] fix: a ruleset with an invalid selector must not yield
 a rule without a selector

---
 internal/cascadia/rules.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 4cfe3bf..8d27f09 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -183,7 +183,11 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 			declaration := buildDeclaration(p, data)
 			currentRule.Declarations = append(currentRule.Declarations, declaration)
 		case css.EndRulesetGrammar:
-			rules = append(rules, currentRule)
+			// a ruleset with an invalid selector has no rule to add
+			if currentRule.Selector != nil {
+				rules = append(rules, currentRule)
+			}
+			currentRule = CssRule{}
 		case css.CustomPropertyGrammar:
 			declaration := buildDeclaration(p, data)
 			currentRule.Declarations = append(currentRule.Declarations, declaration)
-- 
2.43.0


From 783acdde767c38a7facb6c5b28466087a5aba52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:07 +0000
Subject: [PATCH 06/21] fix: a rule inside nested at-rules must keep every
 enclosing condition

---
 internal/cascadia/rules.go | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 8d27f09..8e3666c 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -128,8 +128,8 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 	p := css.NewParser(parse.NewInput(r), inline)
 	rules := make([]CssRule, 0)
 	var currentRule CssRule
-	var atRuleCondition string
-	ignore := false
+	var conditions []string // conditions of the enclosing at-rules, outermost first
+	ignoreDepth := 0        // number of open at-rules from the outermost ignored one inwards
 	ruleSetErr := false
 	for {
 		gt, _, data := p.Next()
@@ -144,7 +144,24 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 			}
 			return rules, err
 		}
-		if ignore && gt != css.EndAtRuleGrammar {
+		switch gt {
+		case css.BeginAtRuleGrammar:
+			name, condition := parseAtRuleName(data, p.Values())
+			if name == "" || ignoreDepth > 0 {
+				ignoreDepth++
+			} else {
+				conditions = append(conditions, condition)
+			}
+			continue
+		case css.EndAtRuleGrammar:
+			if ignoreDepth > 0 {
+				ignoreDepth--
+			} else if len(conditions) > 0 {
+				conditions = conditions[:len(conditions)-1]
+			}
+			continue
+		}
+		if ignoreDepth > 0 {
 			continue
 		}
 
@@ -157,20 +174,9 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 		switch gt {
 		case css.ErrorGrammar:
 			return rules, fmt.Errorf("encountered error parsing CSS: %v", p.Err())
-		case css.BeginAtRuleGrammar:
-			name, condition := parseAtRuleName(data, p.Values())
-			if name == "" {
-				atRuleCondition = ""
-				ignore = true
-				continue
-			}
-			atRuleCondition = condition
-		case css.EndAtRuleGrammar:
-			atRuleCondition = ""
-			ignore = false
 		case css.BeginRulesetGrammar:
 			currentRule = CssRule{}
-			currentRule.condition = atRuleCondition
+			currentRule.condition = strings.Join(conditions, " and ")
 			sel, err := getSelector(data, p.Values())
 			if err != nil {
 				log.Println("error parsing rule:", err) // TODO: LOG this better
-- 
2.43.0


From 526abff825b164907925d538a1f937b719224a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:39 +0000
Subject: [PATCH 07/21] fix: every selector of a selector list must yield a
 rule, not only the last

---
 internal/cascadia/rules.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 8e3666c..2ca10d0 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -67,14 +67,15 @@ type CssDeclaration struct {
 	Value    string // Value is the value for the declaration (e.g., "red")
 }
 
-// getSelector parses the selector from the tokens
-func getSelector(data []byte, tokens []css.Token) (Sel, error) {
+// getSelectors parses the selectors of a ruleset from the tokens.
+// list is the part of a selector list that precedes the tokens.
+func getSelectors(list string, tokens []css.Token) (SelectorGroup, error) {
 	fullSelector := strings.Builder{}
+	fullSelector.WriteString(list)
 	for _, val := range tokens {
 		fullSelector.Write(val.Data)
 	}
-	casc, err := ParseWithPseudoElement(fullSelector.String())
-	return casc, err
+	return ParseGroupWithPseudoElements(fullSelector.String())
 }
 
 // parses the name of an at-rule and its values if it's a media query
@@ -128,8 +129,10 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 	p := css.NewParser(parse.NewInput(r), inline)
 	rules := make([]CssRule, 0)
 	var currentRule CssRule
-	var conditions []string // conditions of the enclosing at-rules, outermost first
-	ignoreDepth := 0        // number of open at-rules from the outermost ignored one inwards
+	var selectors SelectorGroup      // selectors of the current ruleset
+	var selectorList strings.Builder // selectors that ended in a comma so far
+	var conditions []string          // conditions of the enclosing at-rules, outermost first
+	ignoreDepth := 0                 // number of open at-rules from the outermost ignored one inwards
 	ruleSetErr := false
 	for {
 		gt, _, data := p.Next()
@@ -174,26 +177,35 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 		switch gt {
 		case css.ErrorGrammar:
 			return rules, fmt.Errorf("encountered error parsing CSS: %v", p.Err())
+		case css.QualifiedRuleGrammar:
+			for _, val := range p.Values() {
+				selectorList.Write(val.Data)
+			}
+			selectorList.WriteByte(',')
 		case css.BeginRulesetGrammar:
 			currentRule = CssRule{}
 			currentRule.condition = strings.Join(conditions, " and ")
-			sel, err := getSelector(data, p.Values())
+			sels, err := getSelectors(selectorList.String(), p.Values())
+			selectorList.Reset()
 			if err != nil {
 				log.Println("error parsing rule:", err) // TODO: LOG this better
 				ruleSetErr = true
 				currentRule = CssRule{}
+				selectors = nil
 				continue
 			}
-			currentRule.Selector = sel
+			selectors = sels
 		case css.DeclarationGrammar:
 			declaration := buildDeclaration(p, data)
 			currentRule.Declarations = append(currentRule.Declarations, declaration)
 		case css.EndRulesetGrammar:
 			// a ruleset with an invalid selector has no rule to add
-			if currentRule.Selector != nil {
+			for _, sel := range selectors {
+				currentRule.Selector = sel
 				rules = append(rules, currentRule)
 			}
 			currentRule = CssRule{}
+			selectors = nil
 		case css.CustomPropertyGrammar:
 			declaration := buildDeclaration(p, data)
 			currentRule.Declarations = append(currentRule.Declarations, declaration)
-- 
2.43.0


From a4292b05cdd8d5b53805c99ce04d4a5b174936b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:40 +0000
Subject: [PATCH 08/21] fix: conflict detection must honour at-rules and
 pseudo-elements of every selector kind

---
 internal/cascadia/rules.go    | 7 ++++++-
 internal/cascadia/selector.go | 3 +++
 merge.go                      | 2 +-
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 2ca10d0..290bab4 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -45,11 +45,16 @@ func (r CssRule) GetSelector() string {
 
 func (r CssRule) GetCondition() string {
 	if t, ok := r.Selector.(CompoundSelector); ok {
-		return t.PseudoElementsString()
+		return r.condition + t.PseudoElementsString()
 	}
 	return r.condition
 }
 
+// AtRuleCondition returns the condition of the at-rules that enclose the rule.
+func (r CssRule) AtRuleCondition() string {
+	return r.condition
+}
+
 func (r CssRule) ToCssFormat() string {
 	dec := strings.Builder{}
 	for i, d := range r.Declarations {
diff --git a/internal/cascadia/selector.go b/internal/cascadia/selector.go
index 8981252..9359b9b 100644
--- a/internal/cascadia/selector.go
+++ b/internal/cascadia/selector.go
@@ -440,6 +440,9 @@ func (c CompoundSelector) PseudoElementsString() string {
 		strs = append(strs, sel.String())
 	}
 	slices.Sort[[]string](strs)
+	if c.pseudoElement != "" {
+		strs = append(strs, "::"+c.pseudoElement)
+	}
 	return strings.Join(strs, "")
 }
 
diff --git a/merge.go b/merge.go
index ba63f6d..525ab9b 100644
--- a/merge.go
+++ b/merge.go
@@ -188,7 +188,7 @@ func propModifier(class string, rule cascadia.CssRule) string {
 	} else {
 		// use the selector with the class name removed to codify what the selector is being applied to
 		s := cascadia.CssUnescape([]byte(rule.Selector.String()))
-		return strings.Replace(s, class, "", 1)
+		return rule.AtRuleCondition() + strings.Replace(s, class, "", 1)
 	}
 }
 
-- 
2.43.0


From aa82e9c3d605d0b441f324fae2b465457ddf6d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:09 +0000
Subject: [PATCH 09/21] fix: classes that share one rule must not replace each
 other

---
 merge.go | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/merge.go b/merge.go
index 525ab9b..41967f1 100644
--- a/merge.go
+++ b/merge.go
@@ -217,14 +217,13 @@ func (r *Merger) Merge(inClass string) string {
 	defer r.mu.RUnlock()
 
 	keepClasses := make([]string, 0, len(split))
-	selectorToClass := make(map[string]string, len(split))
 
 	// propsToClasses is a map of properties that are shared between classes
 	// The property name may have a condition (pseudo or media) appended to it (e.g., "height:hover": ["h-10", "h-20"])
-	propsToSelectors := make(map[string]string, len(split))
-	importantPropsToSelectors := make(map[string]string, len(split))
-	customVarsToSelectors := make(map[string]string, len(split)) // map of custom vars to the class that set them
-	propsToCustomVars := make(map[string][]string, len(split))   // map of props to the custom vars that it uses
+	propsToClass := make(map[string]string, len(split))
+	importantPropsToClass := make(map[string]string, len(split))
+	customVarsToClass := make(map[string]string, len(split))   // map of custom vars to the class that set them
+	propsToCustomVars := make(map[string][]string, len(split)) // map of props to the custom vars that it uses
 	for _, class := range split {
 		rule, ok := r.rules[class]
 		if !ok {
@@ -233,7 +232,6 @@ func (r *Merger) Merge(inClass string) string {
 			continue
 		}
 
-		selectorToClass[rule.Selector.String()] = class
 		propMod := propModifier(class, rule)
 
 		for _, prop := range r.getAffectedProps(rule) {
@@ -251,45 +249,42 @@ func (r *Merger) Merge(inClass string) string {
 
 				// if the property is marked !important, add the class to the importantProps map
 				if importantRegex.MatchString(dec.Value) {
-					importantPropsToSelectors[prop] = rule.Selector.String()
+					importantPropsToClass[prop] = class
 				}
 			}
 
 			// if it has a custom prop, add it to the customVars map
 			if strings.HasPrefix(prop, "--") {
-				customVarsToSelectors[prop] = rule.Selector.String()
+				customVarsToClass[prop] = class
 				continue
 			}
 
 			// add all classes to the propsToClasses map
-			propsToSelectors[prop] = rule.Selector.String()
+			propsToClass[prop] = class
 		}
 	}
 
 	// keep the last class in the list for each property
 	// importantly, this keeps classes that uniquely define a property, even if it has properties that conflict with other classes
-	for _, sel := range propsToSelectors {
-		class := selectorToClass[sel]
+	for _, class := range propsToClass {
 		keepClasses = append(keepClasses, class)
 	}
 
 	// If a class has an !important property, it is kept unless another class comes later in the class string and it is marked !important on the same property.
-	for _, sel := range importantPropsToSelectors {
+	for _, class := range importantPropsToClass {
 		// This does not remove the class that the the important class is overriding,
 		// but it shouldn't matter because the important class will override the other,
 		// and the other class may have other properties that are not being overridden
-		class := selectorToClass[sel]
 		keepClasses = append(keepClasses, class)
 	}
 
 	// keep the class that sets the last definition of each custom property if that custom property is actually used
-	for custVar, sel := range customVarsToSelectors {
+	for custVar, class := range customVarsToClass {
 		for _, vars := range propsToCustomVars {
 			// if the custom property is actually used, keep the class that sets it
 			if !slices.Contains(vars, custVar) {
 				continue
 			}
-			class := selectorToClass[sel]
 			keepClasses = append(keepClasses, class)
 			break
 		}
-- 
2.43.0


From 71cbdb86cf00a86fe4558db10b52dd10cb909e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:02 +0000
Subject: [PATCH 10/21] fix: importance and variable use belong to the
 declaration that has them

---
 merge.go | 60 +++++++++++++++++++++++++-------------------------------
 1 file changed, 27 insertions(+), 33 deletions(-)

diff --git a/merge.go b/merge.go
index 41967f1..127a1fb 100644
--- a/merge.go
+++ b/merge.go
@@ -112,20 +112,16 @@ func (r *Merger) AddRules(reader io.Reader, inline bool) error {
 	return nil
 }
 
-func (r *Merger) getAffectedProps(rule cascadia.CssRule) []string {
-	affectedProps := make([]string, 0, len(rule.Declarations)*4) // 4 is arbitrary. reducing allocations
-	for _, dec := range rule.Declarations {
-		prop, ok := r.properties[dec.Property]
-		if !ok {
-			// Allowing these through, maybe they shouldn't be but
-			// this allows properties like stroke, fill, etc. to be used
-			// which are not in the mdn official list of props
-			// IMPORTANT: we are relying on this to let custom properties through
-			affectedProps = append(affectedProps, dec.Property)
-		}
-		affectedProps = append(affectedProps, prop.ComputedProps()...)
+func (r *Merger) getAffectedProps(dec cascadia.CssDeclaration) []string {
+	prop, ok := r.properties[dec.Property]
+	if !ok {
+		// Allowing these through, maybe they shouldn't be but
+		// this allows properties like stroke, fill, etc. to be used
+		// which are not in the mdn official list of props
+		// IMPORTANT: we are relying on this to let custom properties through
+		return []string{dec.Property}
 	}
-	return unique(affectedProps)
+	return prop.ComputedProps()
 }
 
 var importantRegex = regexp.MustCompile(`!important`)      // matches !important in a css declaration value
@@ -234,33 +230,31 @@ func (r *Merger) Merge(inClass string) string {
 
 		propMod := propModifier(class, rule)
 
-		for _, prop := range r.getAffectedProps(rule) {
+		for _, dec := range rule.Declarations {
+			customVars := getCustomVarsInDec(dec)
+			important := importantRegex.MatchString(dec.Value)
 
-			prop = prop + propMod
-
-			for _, dec := range rule.Declarations {
-
-				if !strings.HasPrefix(prop, "--") {
-					// if the property has a custom var, add it to the propsToCustomVars map
-					customVars := getCustomVarsInDec(dec)
-					// overwrite the customVars so we prioritize the last class that sets the property
-					propsToCustomVars[prop] = customVars
-				}
+			for _, prop := range r.getAffectedProps(dec) {
+				prop = prop + propMod
 
 				// if the property is marked !important, add the class to the importantProps map
-				if importantRegex.MatchString(dec.Value) {
+				if important {
 					importantPropsToClass[prop] = class
 				}
-			}
 
-			// if it has a custom prop, add it to the customVars map
-			if strings.HasPrefix(prop, "--") {
-				customVarsToClass[prop] = class
-				continue
-			}
+				// if it has a custom prop, add it to the customVars map
+				if strings.HasPrefix(prop, "--") {
+					customVarsToClass[prop] = class
+					continue
+				}
+
+				// if the property has a custom var, add it to the propsToCustomVars map
+				// overwrite the customVars so we prioritize the last class that sets the property
+				propsToCustomVars[prop] = customVars
 
-			// add all classes to the propsToClasses map
-			propsToClass[prop] = class
+				// add all classes to the propsToClasses map
+				propsToClass[prop] = class
+			}
 		}
 	}
 
-- 
2.43.0


From b7c5a6fd115ddc1789a5adee216210865a5b6c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:43 +0000
Subject: [PATCH 11/21] fix: a custom property used under another condition or
 by another custom property must be kept

---
 merge.go | 41 ++++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/merge.go b/merge.go
index 127a1fb..fb4d2c4 100644
--- a/merge.go
+++ b/merge.go
@@ -218,8 +218,10 @@ func (r *Merger) Merge(inClass string) string {
 	// The property name may have a condition (pseudo or media) appended to it (e.g., "height:hover": ["h-10", "h-20"])
 	propsToClass := make(map[string]string, len(split))
 	importantPropsToClass := make(map[string]string, len(split))
-	customVarsToClass := make(map[string]string, len(split))   // map of custom vars to the class that set them
-	propsToCustomVars := make(map[string][]string, len(split)) // map of props to the custom vars that it uses
+	customVarsToClass := make(map[string]string, len(split))            // map of custom vars to the class that set them
+	customVarNames := make(map[string]string, len(split))               // map of custom vars to their name without a condition
+	propsToCustomVars := make(map[string][]string, len(split))          // map of props to the custom vars that it uses
+	importantPropsToCustomVars := make(map[string][]string, len(split)) // as propsToCustomVars, for props marked !important
 	for _, class := range split {
 		rule, ok := r.rules[class]
 		if !ok {
@@ -234,24 +236,26 @@ func (r *Merger) Merge(inClass string) string {
 			customVars := getCustomVarsInDec(dec)
 			important := importantRegex.MatchString(dec.Value)
 
-			for _, prop := range r.getAffectedProps(dec) {
-				prop = prop + propMod
+			for _, name := range r.getAffectedProps(dec) {
+				prop := name + propMod
+
+				// if the property has a custom var, add it to the propsToCustomVars map
+				// overwrite the customVars so we prioritize the last class that sets the property
+				propsToCustomVars[prop] = customVars
 
 				// if the property is marked !important, add the class to the importantProps map
 				if important {
 					importantPropsToClass[prop] = class
+					importantPropsToCustomVars[prop] = customVars
 				}
 
 				// if it has a custom prop, add it to the customVars map
-				if strings.HasPrefix(prop, "--") {
+				if strings.HasPrefix(name, "--") {
 					customVarsToClass[prop] = class
+					customVarNames[prop] = name
 					continue
 				}
 
-				// if the property has a custom var, add it to the propsToCustomVars map
-				// overwrite the customVars so we prioritize the last class that sets the property
-				propsToCustomVars[prop] = customVars
-
 				// add all classes to the propsToClasses map
 				propsToClass[prop] = class
 			}
@@ -273,14 +277,21 @@ func (r *Merger) Merge(inClass string) string {
 	}
 
 	// keep the class that sets the last definition of each custom property if that custom property is actually used
+	// a custom property may be used under another condition or by the definition of another custom property
+	usedVars := make(map[string]bool)
+	for _, vars := range propsToCustomVars {
+		for _, name := range vars {
+			usedVars[name] = true
+		}
+	}
+	for _, vars := range importantPropsToCustomVars {
+		for _, name := range vars {
+			usedVars[name] = true
+		}
+	}
 	for custVar, class := range customVarsToClass {
-		for _, vars := range propsToCustomVars {
-			// if the custom property is actually used, keep the class that sets it
-			if !slices.Contains(vars, custVar) {
-				continue
-			}
+		if usedVars[customVarNames[custVar]] {
 			keepClasses = append(keepClasses, class)
-			break
 		}
 	}
 
-- 
2.43.0


From b4fcb8dab7d0820c585655406cd6463f697c774b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:38 +0000
Subject: [PATCH 12/21] fix: a shorthand also affects the components of the
 shorthands it stands for

---
 merge.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/merge.go b/merge.go
index fb4d2c4..eab6427 100644
--- a/merge.go
+++ b/merge.go
@@ -121,7 +121,18 @@ func (r *Merger) getAffectedProps(dec cascadia.CssDeclaration) []string {
 		// IMPORTANT: we are relying on this to let custom properties through
 		return []string{dec.Property}
 	}
-	return prop.ComputedProps()
+	computed := prop.ComputedProps()
+	affected := make([]string, 0, len(computed))
+	for _, name := range computed {
+		// a component of a shorthand may be a shorthand itself (e.g., border-width in border)
+		component, ok := r.properties[name]
+		if !ok {
+			affected = append(affected, name)
+			continue
+		}
+		affected = append(affected, component.ComputedProps()...)
+	}
+	return affected
 }
 
 var importantRegex = regexp.MustCompile(`!important`)      // matches !important in a css declaration value
-- 
2.43.0


From 88481bffa69a605d513a7c009784b5d007483091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:39 +0000
Subject: [PATCH 13/21] fix: class names may be separated by any amount of any
 whitespace

---
 merge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/merge.go b/merge.go
index eab6427..1488bfb 100644
--- a/merge.go
+++ b/merge.go
@@ -213,7 +213,7 @@ func (r *Merger) Merge(inClass string) string {
 			return val
 		}
 	}
-	split := strings.Split(strings.TrimSpace(inClass), " ")
+	split := strings.Fields(inClass)
 	if len(split) < 2 {
 		return inClass
 	}
-- 
2.43.0


From 340bd631f62b804ff87fc368ac361b3077962660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:16 +0000
Subject: [PATCH 14/21] fix: logical border shorthands must not stand for other
 borders or the text color

---
 internal/props/gen/properties.json | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/internal/props/gen/properties.json b/internal/props/gen/properties.json
index 3308c26..06a2e51 100644
--- a/internal/props/gen/properties.json
+++ b/internal/props/gen/properties.json
@@ -1243,9 +1243,9 @@
       ],
       "appliesto": "allElements",
       "computed": [
-        "border-width",
-        "border-style",
-        "color"
+        "-webkit-border-before-width",
+        "-webkit-border-before-style",
+        "-webkit-border-before-color"
       ],
       "order": "uniqueOrder",
       "status": "nonstandard",
@@ -2543,9 +2543,9 @@
       ],
       "appliesto": "allElements",
       "computed": [
-        "border-top-width",
-        "border-top-style",
-        "border-top-color"
+        "border-block-end-width",
+        "border-block-end-style",
+        "border-block-end-color"
       ],
       "order": "uniqueOrder",
       "status": "standard",
@@ -2619,8 +2619,8 @@
       ],
       "appliesto": "allElements",
       "computed": [
-        "border-width",
-        "border-style",
+        "border-block-start-width",
+        "border-block-start-style",
         "border-block-start-color"
       ],
       "order": "uniqueOrder",
@@ -3072,8 +3072,8 @@
       ],
       "appliesto": "allElements",
       "computed": [
-        "border-width",
-        "border-style",
+        "border-inline-end-width",
+        "border-inline-end-style",
         "border-inline-end-color"
       ],
       "order": "uniqueOrder",
@@ -3196,8 +3196,8 @@
       ],
       "appliesto": "allElements",
       "computed": [
-        "border-width",
-        "border-style",
+        "border-inline-start-width",
+        "border-inline-start-style",
         "border-inline-start-color"
       ],
       "order": "uniqueOrder",
-- 
2.43.0


From de0517f2ffd116d3c4f572d81226a6a39efc140f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:44 +0000
Subject: [PATCH 15/21] fix: !important may be written in any case and with
 whitespace

---
 merge.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/merge.go b/merge.go
index 1488bfb..5c80be7 100644
--- a/merge.go
+++ b/merge.go
@@ -135,8 +135,8 @@ func (r *Merger) getAffectedProps(dec cascadia.CssDeclaration) []string {
 	return affected
 }
 
-var importantRegex = regexp.MustCompile(`!important`)      // matches !important in a css declaration value
-var customVarRegex = regexp.MustCompile(`var\((--[\w-]+)`) // matches custom variables in a css declaration value
+var importantRegex = regexp.MustCompile(`(?i)!\s*important`) // matches !important in a css declaration value
+var customVarRegex = regexp.MustCompile(`var\((--[\w-]+)`)   // matches custom variables in a css declaration value
 
 func getCustomVarsInDec(dec cascadia.CssDeclaration) []string {
 	matches := customVarRegex.FindAllStringSubmatch(dec.Value, -1)
-- 
2.43.0


From e22912a33a62004af4cad90e81e001a2764f00ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:45 +0000
Subject: [PATCH 16/21] fix: recognise every spelling of a custom property in
 var()

---
 internal/cascadia/rules.go | 2 +-
 merge.go                   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 290bab4..edf40ea 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -224,6 +224,6 @@ func buildDeclaration(p *css.Parser, data []byte) CssDeclaration {
 		vals.Write(val.Data)
 	}
 	s := normalizeWhitespace(vals.String())
-	declaration := CssDeclaration{Property: string(data), Value: CssUnescape([]byte(s))}
+	declaration := CssDeclaration{Property: CssUnescape(data), Value: CssUnescape([]byte(s))}
 	return declaration
 }
diff --git a/merge.go b/merge.go
index 5c80be7..17ee00e 100644
--- a/merge.go
+++ b/merge.go
@@ -135,8 +135,8 @@ func (r *Merger) getAffectedProps(dec cascadia.CssDeclaration) []string {
 	return affected
 }
 
-var importantRegex = regexp.MustCompile(`(?i)!\s*important`) // matches !important in a css declaration value
-var customVarRegex = regexp.MustCompile(`var\((--[\w-]+)`)   // matches custom variables in a css declaration value
+var importantRegex = regexp.MustCompile(`(?i)!\s*important`)        // matches !important in a css declaration value
+var customVarRegex = regexp.MustCompile(`(?i)var\(\s*(--[^\s,)]+)`) // matches custom variables in a css declaration value
 
 func getCustomVarsInDec(dec cascadia.CssDeclaration) []string {
 	matches := customVarRegex.FindAllStringSubmatch(dec.Value, -1)
-- 
2.43.0


From 40ab586bbfc2cca973a5444569b8b74d57d52221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:03 +0000
Subject: [PATCH 17/21] fix: :popover-open must be written the way it is parsed

---
 internal/cascadia/serialize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/cascadia/serialize.go b/internal/cascadia/serialize.go
index 45186fe..7e0d389 100644
--- a/internal/cascadia/serialize.go
+++ b/internal/cascadia/serialize.go
@@ -202,7 +202,7 @@ func (c ReadOnlyPseudoClassSelector) String() string {
 }
 
 func (c PopoverPseudoClassSelector) String() string {
-	return ":popover"
+	return ":popover-open"
 }
 
 func (c abstractPseudoClass) String() string {
-- 
2.43.0


From 25b477abd0856c2ca6deb3e065d1a58c431b2cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:04 +0000
Subject: [PATCH 18/21] fix: quotes in attribute values and :contains() must be
 escaped when a selector is written

---
 internal/cascadia/serialize.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/cascadia/serialize.go b/internal/cascadia/serialize.go
index 7e0d389..6fddbf8 100644
--- a/internal/cascadia/serialize.go
+++ b/internal/cascadia/serialize.go
@@ -50,6 +50,11 @@ func init() {
 // espace special CSS char
 func escape(s string) string { return specialCharReplacer.Replace(s) }
 
+var quotedCharReplacer = strings.NewReplacer(`\`, `\\`, `"`, `\"`, "\n", `\a `, "\r", `\d `, "\f", `\c `)
+
+// quote writes s as a CSS string
+func quote(s string) string { return `"` + quotedCharReplacer.Replace(s) + `"` }
+
 func (c TagSelector) String() string {
 	return c.tag
 }
@@ -67,7 +72,7 @@ func (c AttrSelector) String() string {
 	if c.operation == "#=" {
 		val = c.regexp.String()
 	} else if c.operation != "" {
-		val = fmt.Sprintf(`"%s"`, val)
+		val = quote(val)
 	}
 
 	ignoreCase := ""
@@ -96,7 +101,7 @@ func (c ContainsPseudoClassSelector) String() string {
 	if c.own {
 		s += "Own"
 	}
-	return fmt.Sprintf(`:%s("%s")`, s, c.value)
+	return fmt.Sprintf(":%s(%s)", s, quote(c.value))
 }
 
 func (c RegexpPseudoClassSelector) String() string {
-- 
2.43.0


From b674411d439d224ab51c84bbb4716df2f04b54e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:45 +0000
Subject: [PATCH 19/21] fix: Rules must not hand out the map that AddRules
 writes

---
 merge.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/merge.go b/merge.go
index 17ee00e..ed8b39b 100644
--- a/merge.go
+++ b/merge.go
@@ -4,6 +4,7 @@ import (
 	"cmp"
 	"io"
 	"log"
+	"maps"
 	"regexp"
 	"slices"
 	"sort"
@@ -50,8 +51,11 @@ func NewMerger(cache Cache, keepSort bool) *Merger {
 }
 
 // Rules returns the map of css class rules with class names as keys and CssRule structs as values
+// The map is a copy: AddRules does not change it later, and changing it does not change the Merger.
 func (r *Merger) Rules() map[string]cascadia.CssRule {
-	return r.rules
+	r.mu.RLock()
+	defer r.mu.RUnlock()
+	return maps.Clone(r.rules)
 }
 
 // walk recursively walks a selector and returns a slice of component selectors.
-- 
2.43.0


From b7ba533d7c72e1e99476530bf435cf6a100dd5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:55 +0000
Subject: [PATCH 20/21] fix: the grid shorthand does not set the gaps

---
 internal/props/gen/properties.json | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/internal/props/gen/properties.json b/internal/props/gen/properties.json
index 06a2e51..4f774f7 100644
--- a/internal/props/gen/properties.json
+++ b/internal/props/gen/properties.json
@@ -5442,11 +5442,7 @@
         "grid-template-areas",
         "grid-auto-rows",
         "grid-auto-columns",
-        "grid-auto-flow",
-        "grid-column-gap",
-        "grid-row-gap",
-        "column-gap",
-        "row-gap"
+        "grid-auto-flow"
       ],
       "order": "uniqueOrder",
       "status": "standard",
-- 
2.43.0


From 1c3188e2b8b5a3fff1ef4278c832bdc9766b8a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:55 +0000
Subject: [PATCH 21/21] fix: logical border, font-variant and font-synthesis
 shorthands stand for their longhands

---
 internal/props/gen/properties.json | 47 +++++++++++++++++++++++++-----
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/internal/props/gen/properties.json b/internal/props/gen/properties.json
index 4f774f7..f0335eb 100644
--- a/internal/props/gen/properties.json
+++ b/internal/props/gen/properties.json
@@ -2486,7 +2486,10 @@
       ],
       "initial": "currentcolor",
       "appliesto": "allElements",
-      "computed": "computedColor",
+      "computed": [
+        "border-block-start-color",
+        "border-block-end-color"
+      ],
       "order": "uniqueOrder",
       "status": "standard",
       "mdn_url": "https://developer.mozilla.org/docs/Web/CSS/border-block-color"
@@ -2502,7 +2505,10 @@
       ],
       "initial": "none",
       "appliesto": "allElements",
-      "computed": "asSpecified",
+      "computed": [
+        "border-block-start-style",
+        "border-block-end-style"
+      ],
       "order": "uniqueOrder",
       "status": "standard",
       "mdn_url": "https://developer.mozilla.org/docs/Web/CSS/border-block-style"
@@ -2518,7 +2524,10 @@
       ],
       "initial": "medium",
       "appliesto": "allElements",
-      "computed": "absoluteLengthZeroIfBorderStyleNoneOrHidden",
+      "computed": [
+        "border-block-start-width",
+        "border-block-end-width"
+      ],
       "order": "uniqueOrder",
       "status": "standard",
       "mdn_url": "https://developer.mozilla.org/docs/Web/CSS/border-block-width"
@@ -3091,7 +3100,10 @@
       ],
       "initial": "currentcolor",
       "appliesto": "allElements",
-      "computed": "computedColor",
+      "computed": [
+        "border-inline-start-color",
+        "border-inline-end-color"
+      ],
       "order": "uniqueOrder",
       "status": "standard",
       "mdn_url": "https://developer.mozilla.org/docs/Web/CSS/border-inline-color"
@@ -3107,7 +3119,10 @@
       ],
       "initial": "none",
       "appliesto": "allElements",
-      "computed": "asSpecified",
+      "computed": [
+        "border-inline-start-style",
+        "border-inline-end-style"
+      ],
       "order": "uniqueOrder",
       "status": "standard",
       "mdn_url": "https://developer.mozilla.org/docs/Web/CSS/border-inline-style"
@@ -3123,7 +3138,10 @@
       ],
       "initial": "medium",
       "appliesto": "allElements",
-      "computed": "absoluteLengthZeroIfBorderStyleNoneOrHidden",
+      "computed": [
+        "border-inline-start-width",
+        "border-inline-end-width"
+      ],
       "order": "uniqueOrder",
       "status": "standard",
       "mdn_url": "https://developer.mozilla.org/docs/Web/CSS/border-inline-width"
@@ -5075,7 +5093,12 @@
       ],
       "initial": "weight style small-caps position ",
       "appliesto": "allElementsAndText",
-      "computed": "asSpecified",
+      "computed": [
+        "font-synthesis-weight",
+        "font-synthesis-style",
+        "font-synthesis-small-caps",
+        "font-synthesis-position"
+      ],
       "order": "orderOfAppearance",
       "alsoAppliesTo": [
         "::first-letter",
@@ -5180,7 +5203,15 @@
       ],
       "initial": "normal",
       "appliesto": "allElementsAndText",
-      "computed": "asSpecified",
+      "computed": [
+        "font-variant-ligatures",
+        "font-variant-caps",
+        "font-variant-alternates",
+        "font-variant-numeric",
+        "font-variant-east-asian",
+        "font-variant-position",
+        "font-variant-emoji"
+      ],
       "order": "uniqueOrder",
       "alsoAppliesTo": [
         "::first-letter",
-- 
2.43.0

