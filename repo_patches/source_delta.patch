From 5b0c3c5fcaeb1d73b7b4f9319095a5b658471d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:15 +0000
Subject: [PATCH 01/40] fix: constrain TerminalType to (0..ub-integer-options)

---
 pyasn1_modules/rfc3280.py | 2 ++
 pyasn1_modules/rfc5280.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pyasn1_modules/rfc3280.py b/pyasn1_modules/rfc3280.py
index 4c6df13..da88197 100644
--- a/pyasn1_modules/rfc3280.py
+++ b/pyasn1_modules/rfc3280.py
@@ -884,6 +884,8 @@ id_ad_caIssuers = _OID(id_ad, 2)
 
 ub_integer_options = univ.Integer(256)
 
+TerminalType.subtypeSpec = constraint.ValueRangeConstraint(0, ub_integer_options)
+
 
 class CertificateList(univ.Sequence):
     pass
diff --git a/pyasn1_modules/rfc5280.py b/pyasn1_modules/rfc5280.py
index ed5d28f..4809bad 100644
--- a/pyasn1_modules/rfc5280.py
+++ b/pyasn1_modules/rfc5280.py
@@ -518,6 +518,8 @@ class NetworkAddress(X121Address):
 
 ub_integer_options = univ.Integer(256)
 
+TerminalType.subtypeSpec = constraint.ValueRangeConstraint(0, ub_integer_options)
+
 id_at_commonName = _buildOid(id_at, 3)
 
 ub_organization_name_length = univ.Integer(64)
-- 
2.43.0


From c8a3607a58a02ab7d7ff1fbc1a9b406d0a87c526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 02/40] fix: limit UnformattedPostalAddress.printable-address
 to six lines

---
 pyasn1_modules/rfc3280.py | 3 ++-
 pyasn1_modules/rfc5280.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyasn1_modules/rfc3280.py b/pyasn1_modules/rfc3280.py
index da88197..55a191a 100644
--- a/pyasn1_modules/rfc3280.py
+++ b/pyasn1_modules/rfc3280.py
@@ -986,7 +986,8 @@ class UnformattedPostalAddress(univ.Set):
 
 UnformattedPostalAddress.componentType = namedtype.NamedTypes(
     namedtype.OptionalNamedType('printable-address', univ.SequenceOf(componentType=char.PrintableString().subtype(
-        subtypeSpec=constraint.ValueSizeConstraint(1, ub_pds_parameter_length)))),
+        subtypeSpec=constraint.ValueSizeConstraint(1, ub_pds_parameter_length))).subtype(
+        sizeSpec=constraint.ValueSizeConstraint(1, ub_pds_physical_address_lines))),
     namedtype.OptionalNamedType('teletex-string', char.TeletexString().subtype(
         subtypeSpec=constraint.ValueSizeConstraint(1, ub_unformatted_address_length)))
 )
diff --git a/pyasn1_modules/rfc5280.py b/pyasn1_modules/rfc5280.py
index 4809bad..b36d1d7 100644
--- a/pyasn1_modules/rfc5280.py
+++ b/pyasn1_modules/rfc5280.py
@@ -92,7 +92,8 @@ class UnformattedPostalAddress(univ.Set):
 
 UnformattedPostalAddress.componentType = namedtype.NamedTypes(
     namedtype.OptionalNamedType('printable-address', univ.SequenceOf(componentType=char.PrintableString().subtype(
-        subtypeSpec=constraint.ValueSizeConstraint(1, ub_pds_parameter_length)))),
+        subtypeSpec=constraint.ValueSizeConstraint(1, ub_pds_parameter_length))).subtype(
+        sizeSpec=constraint.ValueSizeConstraint(1, ub_pds_physical_address_lines))),
     namedtype.OptionalNamedType('teletex-string', char.TeletexString().subtype(
         subtypeSpec=constraint.ValueSizeConstraint(1, ub_unformatted_address_length)))
 )
-- 
2.43.0


From f1cb2e5a077f6bbfb30d1e313fe7fc700c4956e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:28 +0000
Subject: [PATCH 03/40] fix: require at least one
 PresentationAddress.nAddresses

---
 pyasn1_modules/rfc3280.py | 3 ++-
 pyasn1_modules/rfc5280.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyasn1_modules/rfc3280.py b/pyasn1_modules/rfc3280.py
index 55a191a..54356cc 100644
--- a/pyasn1_modules/rfc3280.py
+++ b/pyasn1_modules/rfc3280.py
@@ -118,7 +118,8 @@ PresentationAddress.componentType = namedtype.NamedTypes(
     namedtype.OptionalNamedType('tSelector', univ.OctetString().subtype(
         explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 2))),
     namedtype.NamedType('nAddresses', univ.SetOf(componentType=univ.OctetString()).subtype(
-        explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 3)))
+        explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 3)).subtype(
+        sizeSpec=constraint.ValueSizeConstraint(1, MAX)))
 )
 
 
diff --git a/pyasn1_modules/rfc5280.py b/pyasn1_modules/rfc5280.py
index b36d1d7..2407902 100644
--- a/pyasn1_modules/rfc5280.py
+++ b/pyasn1_modules/rfc5280.py
@@ -594,7 +594,8 @@ PresentationAddress.componentType = namedtype.NamedTypes(
     namedtype.OptionalNamedType('tSelector', univ.OctetString().subtype(
         explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 2))),
     namedtype.NamedType('nAddresses', univ.SetOf(componentType=univ.OctetString()).subtype(
-        explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 3)))
+        explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 3)).subtype(
+        sizeSpec=constraint.ValueSizeConstraint(1, MAX)))
 )
 
 
-- 
2.43.0


From d89b8d841f67215c3a9e96dc6a63db98645ab006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:34 +0000
Subject: [PATCH 04/40] fix: PolicyInformation.policyQualifiers is SIZE
 (1..MAX)

---
 pyasn1_modules/rfc3280.py | 3 ++-
 pyasn1_modules/rfc5280.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyasn1_modules/rfc3280.py b/pyasn1_modules/rfc3280.py
index 54356cc..ee218a8 100644
--- a/pyasn1_modules/rfc3280.py
+++ b/pyasn1_modules/rfc3280.py
@@ -1193,7 +1193,8 @@ class PolicyInformation(univ.Sequence):
 
 PolicyInformation.componentType = namedtype.NamedTypes(
     namedtype.NamedType('policyIdentifier', CertPolicyId()),
-    namedtype.OptionalNamedType('policyQualifiers', univ.SequenceOf(componentType=PolicyQualifierInfo()))
+    namedtype.OptionalNamedType('policyQualifiers', univ.SequenceOf(componentType=PolicyQualifierInfo()).subtype(
+        sizeSpec=constraint.ValueSizeConstraint(1, MAX)))
 )
 
 
diff --git a/pyasn1_modules/rfc5280.py b/pyasn1_modules/rfc5280.py
index 2407902..c95f98d 100644
--- a/pyasn1_modules/rfc5280.py
+++ b/pyasn1_modules/rfc5280.py
@@ -1360,7 +1360,8 @@ class PolicyInformation(univ.Sequence):
 
 PolicyInformation.componentType = namedtype.NamedTypes(
     namedtype.NamedType('policyIdentifier', CertPolicyId()),
-    namedtype.OptionalNamedType('policyQualifiers', univ.SequenceOf(componentType=PolicyQualifierInfo()))
+    namedtype.OptionalNamedType('policyQualifiers', univ.SequenceOf(componentType=PolicyQualifierInfo()).subtype(
+        sizeSpec=constraint.ValueSizeConstraint(1, MAX)))
 )
 
 
-- 
2.43.0


From 326fbd1a0245e14af273448f232273121f1e92ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:41 +0000
Subject: [PATCH 05/40] fix: register freshestCRL, inhibitAnyPolicy and
 subjectInfoAccess extensions

---
 pyasn1_modules/rfc5280.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyasn1_modules/rfc5280.py b/pyasn1_modules/rfc5280.py
index c95f98d..02459a4 100644
--- a/pyasn1_modules/rfc5280.py
+++ b/pyasn1_modules/rfc5280.py
@@ -1658,6 +1658,9 @@ _certificateExtensionsMap = {
     id_ce_holdInstructionCode: univ.ObjectIdentifier(),
     id_ce_invalidityDate: useful.GeneralizedTime(),
     id_ce_certificateIssuer: GeneralNames(),
+    id_ce_freshestCRL: FreshestCRL(),
+    id_ce_inhibitAnyPolicy: InhibitAnyPolicy(),
+    id_pe_subjectInfoAccess: SubjectInfoAccessSyntax(),
 }
 
 certificateExtensionsMap.update(_certificateExtensionsMap)
-- 
2.43.0


From 4ed286a27fbeea14b135911b0f960abc49725626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:54 +0000
Subject: [PATCH 06/40] fix: register the CPS and user notice policy qualifiers

---
 pyasn1_modules/rfc5280.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyasn1_modules/rfc5280.py b/pyasn1_modules/rfc5280.py
index 02459a4..653103a 100644
--- a/pyasn1_modules/rfc5280.py
+++ b/pyasn1_modules/rfc5280.py
@@ -1664,3 +1664,12 @@ _certificateExtensionsMap = {
 }
 
 certificateExtensionsMap.update(_certificateExtensionsMap)
+
+# map of Policy Qualifier OIDs to Qualifiers
+
+_policyQualifierInfoMap = {
+    id_qt_cps: CPSuri(),
+    id_qt_unotice: UserNotice(),
+}
+
+policyQualifierInfoMap.update(_policyQualifierInfoMap)
-- 
2.43.0


From 9044cd04753410f7acd5ce7d1634b29d41cf334c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 07/40] fix: remove the DirectoryString redefinition from
 rfc3280

---
 pyasn1_modules/rfc3280.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/pyasn1_modules/rfc3280.py b/pyasn1_modules/rfc3280.py
index ee218a8..2b293b2 100644
--- a/pyasn1_modules/rfc3280.py
+++ b/pyasn1_modules/rfc3280.py
@@ -1368,14 +1368,6 @@ id_ce_certificateIssuer = _OID(id_ce, 29)
 id_ce_invalidityDate = _OID(id_ce, 24)
 
 
-class DirectoryString(univ.Choice):
-    pass
-
-
-DirectoryString.componentType = namedtype.NamedTypes(
-    namedtype.NamedType('any', univ.Any())
-)
-
 id_ce_authorityKeyIdentifier = _OID(id_ce, 35)
 
 
-- 
2.43.0


From d7b1453f06f50f21736e0508194cf9a60ef27f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:06 +0000
Subject: [PATCH 08/40] fix: CRLNumber, SkipCerts, TerminalType and
 extension-attribute-type are value ranges, not sizes

---
 pyasn1_modules/rfc2459.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyasn1_modules/rfc2459.py b/pyasn1_modules/rfc2459.py
index 57f783e..1cce106 100644
--- a/pyasn1_modules/rfc2459.py
+++ b/pyasn1_modules/rfc2459.py
@@ -364,7 +364,7 @@ terminal_type = univ.Integer(23)
 
 
 class TerminalType(univ.Integer):
-    subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueSizeConstraint(0, ub_integer_options)
+    subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueRangeConstraint(0, ub_integer_options)
     namedValues = namedval.NamedValues(
         ('telex', 3),
         ('teletelex', 4),
@@ -595,7 +595,7 @@ common_name = univ.Integer(1)
 class ExtensionAttribute(univ.Sequence):
     componentType = namedtype.NamedTypes(
         namedtype.NamedType('extension-attribute-type', univ.Integer().subtype(
-            subtypeSpec=constraint.ValueSizeConstraint(0, ub_extension_attributes),
+            subtypeSpec=constraint.ValueRangeConstraint(0, ub_extension_attributes),
             explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 0))),
         namedtype.NamedType('extension-attribute-value',
                             univ.Any().subtype(explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 1)))
@@ -774,7 +774,7 @@ id_ce_cRLNumber = univ.ObjectIdentifier('2.5.29.20')
 
 
 class CRLNumber(univ.Integer):
-    subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueSizeConstraint(0, MAX)
+    subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueRangeConstraint(0, MAX)
 
 
 class BaseCRLNumber(CRLNumber):
@@ -815,7 +815,7 @@ class ReasonFlags(univ.BitString):
 
 
 class SkipCerts(univ.Integer):
-    subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueSizeConstraint(0, MAX)
+    subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueRangeConstraint(0, MAX)
 
 
 id_ce_policyConstraints = univ.ObjectIdentifier('2.5.29.36')
-- 
2.43.0


From 5793fc24024fa4d1000bf06064e764e641f76ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:12 +0000
Subject: [PATCH 09/40] fix: IssuingDistributionPoint flags default to FALSE

---
 pyasn1_modules/rfc2459.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyasn1_modules/rfc2459.py b/pyasn1_modules/rfc2459.py
index 1cce106..b3c5451 100644
--- a/pyasn1_modules/rfc2459.py
+++ b/pyasn1_modules/rfc2459.py
@@ -1135,13 +1135,13 @@ class IssuingDistributionPoint(univ.Sequence):
     componentType = namedtype.NamedTypes(
         namedtype.OptionalNamedType('distributionPoint', DistributionPointName().subtype(
             implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 0))),
-        namedtype.NamedType('onlyContainsUserCerts', univ.Boolean(False).subtype(
+        namedtype.DefaultedNamedType('onlyContainsUserCerts', univ.Boolean(False).subtype(
             implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 1))),
-        namedtype.NamedType('onlyContainsCACerts', univ.Boolean(False).subtype(
+        namedtype.DefaultedNamedType('onlyContainsCACerts', univ.Boolean(False).subtype(
             implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 2))),
         namedtype.OptionalNamedType('onlySomeReasons', ReasonFlags().subtype(
             implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 3))),
-        namedtype.NamedType('indirectCRL', univ.Boolean(False).subtype(
+        namedtype.DefaultedNamedType('indirectCRL', univ.Boolean(False).subtype(
             implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 4)))
     )
 
-- 
2.43.0


From dbdfe6217d8b56026c82aa398ac9f9e89d6d9d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:19 +0000
Subject: [PATCH 10/40] fix: DomainParameters.j is optional

---
 pyasn1_modules/rfc2459.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc2459.py b/pyasn1_modules/rfc2459.py
index b3c5451..09b9be6 100644
--- a/pyasn1_modules/rfc2459.py
+++ b/pyasn1_modules/rfc2459.py
@@ -326,7 +326,7 @@ class DomainParameters(univ.Sequence):
         namedtype.NamedType('p', univ.Integer()),
         namedtype.NamedType('g', univ.Integer()),
         namedtype.NamedType('q', univ.Integer()),
-        namedtype.NamedType('j', univ.Integer()),
+        namedtype.OptionalNamedType('j', univ.Integer()),
         namedtype.OptionalNamedType('validationParms', ValidationParms())
     )
 
-- 
2.43.0


From 8c1924e746afc143ff1e2fb92421e3ca6c36df3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:26 +0000
Subject: [PATCH 11/40] fix: spell the teletex terminal type

---
 pyasn1_modules/rfc2459.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc2459.py b/pyasn1_modules/rfc2459.py
index 09b9be6..fea965e 100644
--- a/pyasn1_modules/rfc2459.py
+++ b/pyasn1_modules/rfc2459.py
@@ -367,7 +367,7 @@ class TerminalType(univ.Integer):
     subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueRangeConstraint(0, ub_integer_options)
     namedValues = namedval.NamedValues(
         ('telex', 3),
-        ('teletelex', 4),
+        ('teletex', 4),
         ('g3-facsimile', 5),
         ('g4-facsimile', 6),
         ('ia5-terminal', 7),
-- 
2.43.0


From 3ee0e65dc8108472f0c78472ef8d4e4f62264357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:32 +0000
Subject: [PATCH 12/40] fix: apply the line limit of UnformattedPostalAddress
 to the list

---
 pyasn1_modules/rfc2459.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyasn1_modules/rfc2459.py b/pyasn1_modules/rfc2459.py
index fea965e..dd1e3da 100644
--- a/pyasn1_modules/rfc2459.py
+++ b/pyasn1_modules/rfc2459.py
@@ -457,8 +457,8 @@ class StreetAddress(PDSParameter):
 class UnformattedPostalAddress(univ.Set):
     componentType = namedtype.NamedTypes(
         namedtype.OptionalNamedType('printable-address', univ.SequenceOf(componentType=char.PrintableString().subtype(
-            subtypeSpec=constraint.ValueSizeConstraint(1, ub_pds_parameter_length)).subtype(
-            subtypeSpec=constraint.ValueSizeConstraint(1, ub_pds_physical_address_lines)))),
+            subtypeSpec=constraint.ValueSizeConstraint(1, ub_pds_parameter_length))).subtype(
+            subtypeSpec=constraint.ValueSizeConstraint(1, ub_pds_physical_address_lines))),
         namedtype.OptionalNamedType('teletex-string', char.TeletexString().subtype(
             subtypeSpec=constraint.ValueSizeConstraint(1, ub_unformatted_address_length)))
     )
-- 
2.43.0


From c16422d600a56666de34b6a122d9d86857a99ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:37 +0000
Subject: [PATCH 13/40] fix: PresentationAddress.nAddresses is not optional

---
 pyasn1_modules/rfc2459.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc2459.py b/pyasn1_modules/rfc2459.py
index dd1e3da..285ba2b 100644
--- a/pyasn1_modules/rfc2459.py
+++ b/pyasn1_modules/rfc2459.py
@@ -383,7 +383,7 @@ class PresentationAddress(univ.Sequence):
             explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 1))),
         namedtype.OptionalNamedType('tSelector', univ.OctetString().subtype(
             explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 2))),
-        namedtype.OptionalNamedType('nAddresses', univ.SetOf(componentType=univ.OctetString()).subtype(
+        namedtype.NamedType('nAddresses', univ.SetOf(componentType=univ.OctetString()).subtype(
             explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 3),
             subtypeSpec=constraint.ValueSizeConstraint(1, MAX))),
     )
-- 
2.43.0


From 3ec3975e95ca7c193dd19583bb6fd02e0c54795f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:43 +0000
Subject: [PATCH 14/40] fix: bound the size of
 TeletexDomainDefinedAttribute.value

---
 pyasn1_modules/rfc2459.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc2459.py b/pyasn1_modules/rfc2459.py
index 285ba2b..b2eb5cd 100644
--- a/pyasn1_modules/rfc2459.py
+++ b/pyasn1_modules/rfc2459.py
@@ -351,7 +351,8 @@ class TeletexDomainDefinedAttribute(univ.Sequence):
     componentType = namedtype.NamedTypes(
         namedtype.NamedType('type', char.TeletexString().subtype(
             subtypeSpec=constraint.ValueSizeConstraint(1, ub_domain_defined_attribute_type_length))),
-        namedtype.NamedType('value', char.TeletexString())
+        namedtype.NamedType('value', char.TeletexString().subtype(
+            subtypeSpec=constraint.ValueSizeConstraint(1, ub_domain_defined_attribute_value_length)))
     )
 
 
-- 
2.43.0


From 7fe9a8ed3f971291f579eff22e3fdbdee27efe0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 15/40] fix: cRLNumber extension is a CRLNumber

---
 pyasn1_modules/rfc2459.py | 2 +-
 pyasn1_modules/rfc5280.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyasn1_modules/rfc2459.py b/pyasn1_modules/rfc2459.py
index b2eb5cd..242d8b7 100644
--- a/pyasn1_modules/rfc2459.py
+++ b/pyasn1_modules/rfc2459.py
@@ -1327,7 +1327,7 @@ _certificateExtensionsMapUpdate = {
     id_ce_extKeyUsage: ExtKeyUsageSyntax(),
     id_ce_cRLDistributionPoints: CRLDistPointsSyntax(),
     id_pe_authorityInfoAccess: AuthorityInfoAccessSyntax(),
-    id_ce_cRLNumber: univ.Integer(),
+    id_ce_cRLNumber: CRLNumber(),
     id_ce_deltaCRLIndicator: BaseCRLNumber(),
     id_ce_issuingDistributionPoint: IssuingDistributionPoint(),
     id_ce_cRLReasons: CRLReason(),
diff --git a/pyasn1_modules/rfc5280.py b/pyasn1_modules/rfc5280.py
index 653103a..3ea7616 100644
--- a/pyasn1_modules/rfc5280.py
+++ b/pyasn1_modules/rfc5280.py
@@ -1651,7 +1651,7 @@ _certificateExtensionsMap = {
     id_ce_extKeyUsage: ExtKeyUsageSyntax(),
     id_ce_cRLDistributionPoints: CRLDistributionPoints(),
     id_pe_authorityInfoAccess: AuthorityInfoAccessSyntax(),
-    id_ce_cRLNumber: univ.Integer(),
+    id_ce_cRLNumber: CRLNumber(),
     id_ce_deltaCRLIndicator: BaseCRLNumber(),
     id_ce_issuingDistributionPoint: IssuingDistributionPoint(),
     id_ce_cRLReasons: CRLReason(),
-- 
2.43.0


From ef891317c44c92fed049d6e1548a3fcf04f70bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:06 +0000
Subject: [PATCH 16/40] fix: id-kp-cmcArchive is {id-kp 29}

---
 pyasn1_modules/rfc6402.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc6402.py b/pyasn1_modules/rfc6402.py
index 5490b05..811bf6f 100644
--- a/pyasn1_modules/rfc6402.py
+++ b/pyasn1_modules/rfc6402.py
@@ -493,7 +493,7 @@ class ExtensionReq(univ.SequenceOf):
 ExtensionReq.componentType = rfc5280.Extension()
 ExtensionReq.sizeSpec = constraint.ValueSizeConstraint(1, MAX)
 
-id_kp_cmcArchive = _buildOid(rfc5280.id_kp, 28)
+id_kp_cmcArchive = _buildOid(rfc5280.id_kp, 29)
 
 id_cmc_publishCert = _buildOid(id_cmc, 30)
 
-- 
2.43.0


From cc1472fc2e39df4e711a17782134fc37a2666e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:11 +0000
Subject: [PATCH 17/40] fix: tag CMCStatusInfoV2.otherInfo.extendedFailInfo

---
 pyasn1_modules/rfc6402.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc6402.py b/pyasn1_modules/rfc6402.py
index 811bf6f..04712ae 100644
--- a/pyasn1_modules/rfc6402.py
+++ b/pyasn1_modules/rfc6402.py
@@ -151,7 +151,7 @@ CMCStatusInfoV2.componentType = namedtype.NamedTypes(
                     componentType=namedtype.NamedTypes(
                         namedtype.NamedType('failInfoOID', univ.ObjectIdentifier()),
                         namedtype.NamedType('failInfoValue', AttributeValue()))
-                    )
+                    ).subtype(implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 1))
                 )
             )
         )
-- 
2.43.0


From b3a250005c17a9735d2d485027a7e57838b4c943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:18 +0000
Subject: [PATCH 18/40] fix: AttributeValueAssertion is governed by
 attributeType

---
 pyasn1_modules/rfc2315.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc2315.py b/pyasn1_modules/rfc2315.py
index 1069fc2..b0cb5cd 100644
--- a/pyasn1_modules/rfc2315.py
+++ b/pyasn1_modules/rfc2315.py
@@ -26,7 +26,7 @@ class AttributeValueAssertion(univ.Sequence):
     componentType = namedtype.NamedTypes(
         namedtype.NamedType('attributeType', AttributeType()),
         namedtype.NamedType('attributeValue', AttributeValue(),
-                            openType=opentype.OpenType('type', certificateAttributesMap))
+                            openType=opentype.OpenType('attributeType', certificateAttributesMap))
     )
 
 
-- 
2.43.0


From 891f43e31d6eb6a4a105a6014e31b49e98d9ae58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:25 +0000
Subject: [PATCH 19/40] fix: EncryptedContentInfo.encryptedContent is a
 primitive octet string

---
 pyasn1_modules/rfc2315.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyasn1_modules/rfc2315.py b/pyasn1_modules/rfc2315.py
index b0cb5cd..9ee3d93 100644
--- a/pyasn1_modules/rfc2315.py
+++ b/pyasn1_modules/rfc2315.py
@@ -60,9 +60,8 @@ class EncryptedContentInfo(univ.Sequence):
         namedtype.NamedType('contentEncryptionAlgorithm', ContentEncryptionAlgorithmIdentifier()),
         namedtype.OptionalNamedType(
             'encryptedContent', EncryptedContent().subtype(
-                implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 0)
-            ),
-            openType=opentype.OpenType('contentType', contentTypeMap)
+                implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 0)
+            )
         )
     )
 
-- 
2.43.0


From ed1cb191d9c194dc7f6f2278338fb4d2b999c508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:32 +0000
Subject: [PATCH 20/40] fix: use the X.509 GeneralName in CRMF

---
 pyasn1_modules/rfc2511.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/pyasn1_modules/rfc2511.py b/pyasn1_modules/rfc2511.py
index 8935cda..a3db446 100644
--- a/pyasn1_modules/rfc2511.py
+++ b/pyasn1_modules/rfc2511.py
@@ -30,14 +30,6 @@ id_regInfo_utf8Pairs = univ.ObjectIdentifier('1.3.6.1.5.5.7.5.2.1')
 id_regInfo_certReq = univ.ObjectIdentifier('1.3.6.1.5.5.7.5.2.2')
 
 
-# This should be in PKIX Certificate Extensions module
-
-class GeneralName(univ.OctetString):
-    pass
-
-
-# end of PKIX Certificate Extensions module
-
 class UTF8Pairs(char.UTF8String):
     pass
 
-- 
2.43.0


From bde79ab13cd3e7101b2f470cd4e764413eb14abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:37 +0000
Subject: [PATCH 21/40] fix: use the X.509 GeneralName in OCSP

---
 pyasn1_modules/rfc2560.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc2560.py b/pyasn1_modules/rfc2560.py
index 017ac0b..5ddc0fd 100644
--- a/pyasn1_modules/rfc2560.py
+++ b/pyasn1_modules/rfc2560.py
@@ -53,7 +53,7 @@ class CRLReason(univ.Enumerated):
 
 # This should be in PKIX Certificate Extensions module
 
-class GeneralName(univ.OctetString):
+class GeneralName(rfc2459.GeneralName):
     pass
 
 
-- 
2.43.0


From 2b34b04c3f31ef9fda094fc2868193b0864f68f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:43 +0000
Subject: [PATCH 22/40] fix: Trap-PDU is [4] IMPLICIT

---
 pyasn1_modules/rfc1157.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyasn1_modules/rfc1157.py b/pyasn1_modules/rfc1157.py
index df49e48..e44eed3 100644
--- a/pyasn1_modules/rfc1157.py
+++ b/pyasn1_modules/rfc1157.py
@@ -95,6 +95,9 @@ class SetRequestPDU(_RequestBase):
 
 
 class TrapPDU(univ.Sequence):
+    tagSet = univ.Sequence.tagSet.tagImplicitly(
+        tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 4)
+    )
     componentType = namedtype.NamedTypes(
         namedtype.NamedType('enterprise', univ.ObjectIdentifier()),
         namedtype.NamedType('agent-addr', rfc1155.NetworkAddress()),
-- 
2.43.0


From 83167b95c5904be6e8e184327c1b7ebab5f9d2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 23/40] fix: DelRequest is an LDAPDN, AbandonRequest a
 MessageID and UnbindRequest a primitive NULL

---
 pyasn1_modules/rfc2251.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/pyasn1_modules/rfc2251.py b/pyasn1_modules/rfc2251.py
index 094922c..12a4a7d 100644
--- a/pyasn1_modules/rfc2251.py
+++ b/pyasn1_modules/rfc2251.py
@@ -276,7 +276,7 @@ class SearchRequest(univ.Sequence):
 
 
 class UnbindRequest(univ.Null):
-    tagSet = univ.Sequence.tagSet.tagImplicitly(
+    tagSet = univ.Null.tagSet.tagImplicitly(
         tag.Tag(tag.tagClassApplication, tag.tagFormatSimple, 2)
     )
 
@@ -418,9 +418,9 @@ class AddResponse(LDAPResult):
     )
 
 
-class DelRequest(LDAPResult):
-    tagSet = univ.Sequence.tagSet.tagImplicitly(
-        tag.Tag(tag.tagClassApplication, tag.tagFormatConstructed, 10)
+class DelRequest(LDAPDN):
+    tagSet = LDAPDN.tagSet.tagImplicitly(
+        tag.Tag(tag.tagClassApplication, tag.tagFormatSimple, 10)
     )
 
 
@@ -466,9 +466,15 @@ class CompareResponse(LDAPResult):
     )
 
 
-class AbandonRequest(LDAPResult):
-    tagSet = univ.Sequence.tagSet.tagImplicitly(
-        tag.Tag(tag.tagClassApplication, tag.tagFormatConstructed, 16)
+class MessageID(univ.Integer):
+    subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueRangeConstraint(
+        0, maxInt
+    )
+
+
+class AbandonRequest(MessageID):
+    tagSet = MessageID.tagSet.tagImplicitly(
+        tag.Tag(tag.tagClassApplication, tag.tagFormatSimple, 16)
     )
 
 
@@ -523,12 +529,6 @@ class ExtendedResponse(univ.Sequence):
     )
 
 
-class MessageID(univ.Integer):
-    subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueRangeConstraint(
-        0, maxInt
-    )
-
-
 class LDAPMessage(univ.Sequence):
     componentType = namedtype.NamedTypes(
         namedtype.NamedType('messageID', MessageID()),
-- 
2.43.0


From 4594ae5f95ecb728ddd1de9a5845b1072c7f0bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:17 +0000
Subject: [PATCH 24/40] fix: RSAES-OAEP-params and RSASSA-PSS-params components
 have defaults

---
 pyasn1_modules/rfc4055.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pyasn1_modules/rfc4055.py b/pyasn1_modules/rfc4055.py
index bdc1286..f76776d 100644
--- a/pyasn1_modules/rfc4055.py
+++ b/pyasn1_modules/rfc4055.py
@@ -125,12 +125,12 @@ class RSAES_OAEP_params(univ.Sequence):
     pass
 
 RSAES_OAEP_params.componentType = namedtype.NamedTypes(
-    namedtype.OptionalNamedType('hashFunc', rfc5280.AlgorithmIdentifier().subtype(
-        explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 0))),
-    namedtype.OptionalNamedType('maskGenFunc', rfc5280.AlgorithmIdentifier().subtype(
-        explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 1))),
-    namedtype.OptionalNamedType('pSourceFunc', rfc5280.AlgorithmIdentifier().subtype(
-        explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 2)))
+    namedtype.DefaultedNamedType('hashFunc', sha1Identifier.subtype(
+        explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 0), cloneValueFlag=True)),
+    namedtype.DefaultedNamedType('maskGenFunc', mgf1SHA1Identifier.subtype(
+        explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 1), cloneValueFlag=True)),
+    namedtype.DefaultedNamedType('pSourceFunc', pSpecifiedEmptyIdentifier.subtype(
+        explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 2), cloneValueFlag=True))
 )
 
 rSAES_OAEP_Default_Params = RSAES_OAEP_params()
@@ -184,10 +184,10 @@ class RSASSA_PSS_params(univ.Sequence):
     pass
 
 RSASSA_PSS_params.componentType = namedtype.NamedTypes(
-    namedtype.OptionalNamedType('hashAlgorithm', rfc5280.AlgorithmIdentifier().subtype(
-        explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 0))),
-    namedtype.OptionalNamedType('maskGenAlgorithm', rfc5280.AlgorithmIdentifier().subtype(
-        explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 1))),
+    namedtype.DefaultedNamedType('hashAlgorithm', sha1Identifier.subtype(
+        explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 0), cloneValueFlag=True)),
+    namedtype.DefaultedNamedType('maskGenAlgorithm', mgf1SHA1Identifier.subtype(
+        explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 1), cloneValueFlag=True)),
     namedtype.DefaultedNamedType('saltLength', univ.Integer(value=20).subtype(
         explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 2))),
     namedtype.DefaultedNamedType('trailerField', univ.Integer(value=1).subtype(
-- 
2.43.0


From 4c54c789f6e3082ae32f3d40215ca48d67364e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:19 +0000
Subject: [PATCH 25/40] fix: set the RSAES-OAEP-params defaults

---
 pyasn1_modules/rfc2437.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/pyasn1_modules/rfc2437.py b/pyasn1_modules/rfc2437.py
index 88641cf..7e8ce4a 100644
--- a/pyasn1_modules/rfc2437.py
+++ b/pyasn1_modules/rfc2437.py
@@ -57,13 +57,25 @@ class RSAPublicKey(univ.Sequence):
     )
 
 
-# XXX defaults not set
+sha1Identifier = AlgorithmIdentifier()
+sha1Identifier['algorithm'] = id_sha1
+sha1Identifier['parameters'] = univ.Null('')
+
+mgf1SHA1Identifier = AlgorithmIdentifier()
+mgf1SHA1Identifier['algorithm'] = id_mgf1
+mgf1SHA1Identifier['parameters'] = sha1Identifier
+
+pSpecifiedEmptyIdentifier = AlgorithmIdentifier()
+pSpecifiedEmptyIdentifier['algorithm'] = id_pSpecified
+pSpecifiedEmptyIdentifier['parameters'] = univ.OctetString('')
+
+
 class RSAES_OAEP_params(univ.Sequence):
     componentType = namedtype.NamedTypes(
-        namedtype.NamedType('hashFunc', AlgorithmIdentifier().subtype(
-            implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 0))),
-        namedtype.NamedType('maskGenFunc', AlgorithmIdentifier().subtype(
-            implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 1))),
-        namedtype.NamedType('pSourceFunc', AlgorithmIdentifier().subtype(
-            implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 2)))
+        namedtype.DefaultedNamedType('hashFunc', sha1Identifier.subtype(
+            explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 0), cloneValueFlag=True)),
+        namedtype.DefaultedNamedType('maskGenFunc', mgf1SHA1Identifier.subtype(
+            explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 1), cloneValueFlag=True)),
+        namedtype.DefaultedNamedType('pSourceFunc', pSpecifiedEmptyIdentifier.subtype(
+            explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 2), cloneValueFlag=True))
     )
-- 
2.43.0


From 30f261657781fb4ce3ae009ea29704b5fa972c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:48 +0000
Subject: [PATCH 26/40] fix: let siren-dn be cloned and subtyped

---
 pyasn1_modules/rfc7191.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyasn1_modules/rfc7191.py b/pyasn1_modules/rfc7191.py
index 7c2be11..7ccab09 100644
--- a/pyasn1_modules/rfc7191.py
+++ b/pyasn1_modules/rfc7191.py
@@ -82,8 +82,8 @@ id_dn = univ.ObjectIdentifier('2.16.840.1.101.2.1.16.0')
 
 
 class siren_dn(SIREntityName):
-    def __init__(self):
-        SIREntityName.__init__(self)
+    def __init__(self, **kwargs):
+        SIREntityName.__init__(self, **kwargs)
         self['sirenType'] = id_dn
 
 
-- 
2.43.0


From ecedd2652e1c8d7c4a2cb77404d18236eca6b2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:50 +0000
Subject: [PATCH 27/40] fix: dhSinglePass-stdDH-sha*kdf-scheme belong to the
 secg-scheme arc

---
 pyasn1_modules/rfc8418.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyasn1_modules/rfc8418.py b/pyasn1_modules/rfc8418.py
index 6e76487..5102743 100644
--- a/pyasn1_modules/rfc8418.py
+++ b/pyasn1_modules/rfc8418.py
@@ -23,11 +23,11 @@ class KeyWrapAlgorithmIdentifier(rfc5280.AlgorithmIdentifier):
     pass
 
 
-dhSinglePass_stdDH_sha256kdf_scheme = univ.ObjectIdentifier('1.3.133.16.840.63.0.11.1')
+dhSinglePass_stdDH_sha256kdf_scheme = univ.ObjectIdentifier('1.3.132.1.11.1')
 
-dhSinglePass_stdDH_sha384kdf_scheme = univ.ObjectIdentifier('1.3.133.16.840.63.0.11.2')
+dhSinglePass_stdDH_sha384kdf_scheme = univ.ObjectIdentifier('1.3.132.1.11.2')
 
-dhSinglePass_stdDH_sha512kdf_scheme = univ.ObjectIdentifier('1.3.133.16.840.63.0.11.3')
+dhSinglePass_stdDH_sha512kdf_scheme = univ.ObjectIdentifier('1.3.132.1.11.3')
 
 dhSinglePass_stdDH_hkdf_sha256_scheme = univ.ObjectIdentifier('1.2.840.113549.1.9.16.3.19')
 
-- 
2.43.0


From a72cfdadced803f8029be7c8726a7dbcbcd88a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:51 +0000
Subject: [PATCH 28/40] fix: SSID is SIZE (1..32)

---
 pyasn1_modules/rfc4334.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc4334.py b/pyasn1_modules/rfc4334.py
index 44cd31b..8a7a1c7 100644
--- a/pyasn1_modules/rfc4334.py
+++ b/pyasn1_modules/rfc4334.py
@@ -42,7 +42,7 @@ id_kp_eapOverLAN = id_kp + (14, )
 id_pe_wlanSSID = id_pe + (13, )
 
 class SSID(univ.OctetString):
-    constraint.ValueSizeConstraint(1, 32)
+    subtypeSpec = constraint.ValueSizeConstraint(1, 32)
 
 
 class SSIDList(univ.SequenceOf):
-- 
2.43.0


From c5845538b1a3cdcd6ac7f2949042149c4407e718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:53 +0000
Subject: [PATCH 29/40] fix: CertReqMsg.regInfo and PKIPublicationInfo.pubInfos
 are SIZE (1..MAX)

---
 pyasn1_modules/rfc4211.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyasn1_modules/rfc4211.py b/pyasn1_modules/rfc4211.py
index c47b3c5..aebaec1 100644
--- a/pyasn1_modules/rfc4211.py
+++ b/pyasn1_modules/rfc4211.py
@@ -303,7 +303,8 @@ class CertReqMsg(univ.Sequence):
 CertReqMsg.componentType = namedtype.NamedTypes(
     namedtype.NamedType('certReq', CertRequest()),
     namedtype.OptionalNamedType('popo', ProofOfPossession()),
-    namedtype.OptionalNamedType('regInfo', univ.SequenceOf(componentType=AttributeTypeAndValue()))
+    namedtype.OptionalNamedType('regInfo', univ.SequenceOf(componentType=AttributeTypeAndValue()).subtype(
+        sizeSpec=constraint.ValueSizeConstraint(1, MAX)))
 )
 
 
@@ -343,7 +344,8 @@ class PKIPublicationInfo(univ.Sequence):
 PKIPublicationInfo.componentType = namedtype.NamedTypes(
     namedtype.NamedType('action',
                         univ.Integer(namedValues=namedval.NamedValues(('dontPublish', 0), ('pleasePublish', 1)))),
-    namedtype.OptionalNamedType('pubInfos', univ.SequenceOf(componentType=SinglePubInfo()))
+    namedtype.OptionalNamedType('pubInfos', univ.SequenceOf(componentType=SinglePubInfo()).subtype(
+        sizeSpec=constraint.ValueSizeConstraint(1, MAX)))
 )
 
 
-- 
2.43.0


From e09b7f64dd5b90899fa31e891ccb8127ef3b91c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 30/40] fix: PKIHeader.generalInfo is SIZE (1..MAX), not its
 elements

---
 pyasn1_modules/rfc4210.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyasn1_modules/rfc4210.py b/pyasn1_modules/rfc4210.py
index 0935e3e..4cdf63d 100644
--- a/pyasn1_modules/rfc4210.py
+++ b/pyasn1_modules/rfc4210.py
@@ -742,10 +742,9 @@ class PKIHeader(univ.Sequence):
             explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 7))),
         namedtype.OptionalNamedType('generalInfo',
                                     univ.SequenceOf(
-                                        componentType=InfoTypeAndValue().subtype(
-                                            sizeSpec=constraint.ValueSizeConstraint(1, MAX)
-                                        )
+                                        componentType=InfoTypeAndValue()
                                     ).subtype(
+            sizeSpec=constraint.ValueSizeConstraint(1, MAX),
             explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 8))
         )
     )
-- 
2.43.0


From 5969551177eaefc9cf0fd2a2dc85679a513007fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 31/40] fix: register the TrustAnchorList content type

---
 pyasn1_modules/rfc5914.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pyasn1_modules/rfc5914.py b/pyasn1_modules/rfc5914.py
index d125ea2..4fd396b 100644
--- a/pyasn1_modules/rfc5914.py
+++ b/pyasn1_modules/rfc5914.py
@@ -18,6 +18,7 @@ from pyasn1.type import tag
 from pyasn1.type import univ
 
 from pyasn1_modules import rfc5280
+from pyasn1_modules import rfc5652
 
 
 MAX = float('inf')
@@ -117,3 +118,12 @@ class TrustAnchorList(univ.SequenceOf):
 
 TrustAnchorList.componentType = TrustAnchorChoice()
 TrustAnchorList.subtypeSpec=constraint.ValueSizeConstraint(1, MAX)
+
+
+# Update the CMS Content Types map in rfc5652.py
+
+_cmsContentTypesMapUpdate = {
+    id_ct_trustAnchorList: TrustAnchorList(),
+}
+
+rfc5652.cmsContentTypesMap.update(_cmsContentTypesMapUpdate)
-- 
2.43.0


From 3184687a9d244828ad7d92b2a9b02b6f5ecd8921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:57 +0000
Subject: [PATCH 32/40] fix: register the AEADChaCha20Poly1305 parameters

---
 pyasn1_modules/rfc8103.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pyasn1_modules/rfc8103.py b/pyasn1_modules/rfc8103.py
index 6429e86..2509f22 100644
--- a/pyasn1_modules/rfc8103.py
+++ b/pyasn1_modules/rfc8103.py
@@ -15,6 +15,8 @@
 from pyasn1.type import constraint
 from pyasn1.type import univ
 
+from pyasn1_modules import rfc5280
+
 
 def _OID(*components):
     output = []
@@ -34,3 +36,11 @@ class AEADChaCha20Poly1305Nonce(univ.OctetString):
 AEADChaCha20Poly1305Nonce.subtypeSpec = constraint.ValueSizeConstraint(12, 12)
 
 id_alg_AEADChaCha20Poly1305 = _OID(1, 2, 840, 113549, 1, 9, 16, 3, 18)
+
+# Update the Algorithm Identifier map in rfc5280.py.
+
+_algorithmIdentifierMapUpdate = {
+    id_alg_AEADChaCha20Poly1305: AEADChaCha20Poly1305Nonce(),
+}
+
+rfc5280.algorithmIdentifierMap.update(_algorithmIdentifierMapUpdate)
-- 
2.43.0


From 488f6125435ad2c3afcc757436b7ef599f369955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:59 +0000
Subject: [PATCH 33/40] fix: PKCS#8 attributes are X.501 attributes

---
 pyasn1_modules/rfc5208.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyasn1_modules/rfc5208.py b/pyasn1_modules/rfc5208.py
index 295fdbf..f2e3e6d 100644
--- a/pyasn1_modules/rfc5208.py
+++ b/pyasn1_modules/rfc5208.py
@@ -11,7 +11,6 @@
 #
 # Sample captures could be obtained with "openssl pkcs8 -topk8" command
 #
-from pyasn1_modules import rfc2251
 from pyasn1_modules.rfc2459 import *
 
 
@@ -39,7 +38,7 @@ class PrivateKey(univ.OctetString):
 
 
 class Attributes(univ.SetOf):
-    componentType = rfc2251.Attribute()
+    componentType = Attribute()
 
 
 class Version(univ.Integer):
-- 
2.43.0


From 663716db2570d2cbbb4c38407ef4791401315af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:01 +0000
Subject: [PATCH 34/40] fix: aes192-Wrap and aes256-Wrap use their own
 identifiers

---
 pyasn1_modules/rfc5990.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyasn1_modules/rfc5990.py b/pyasn1_modules/rfc5990.py
index 281316f..30e32ac 100644
--- a/pyasn1_modules/rfc5990.py
+++ b/pyasn1_modules/rfc5990.py
@@ -194,11 +194,11 @@ aes128_Wrap['algorithm'] = id_aes128_Wrap
 # aes128_Wrap['parameters'] are absent
 
 aes192_Wrap = AlgorithmIdentifier()
-aes192_Wrap['algorithm'] = id_aes128_Wrap
+aes192_Wrap['algorithm'] = id_aes192_Wrap
 # aes192_Wrap['parameters'] are absent
 
 aes256_Wrap = AlgorithmIdentifier()
-aes256_Wrap['algorithm'] = id_sha256
+aes256_Wrap['algorithm'] = id_aes256_Wrap
 # aes256_Wrap['parameters'] are absent
 
 tdes_Wrap = AlgorithmIdentifier()
-- 
2.43.0


From 2e18e5d8c98290126373eb73b4624eab1ffb3c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:02 +0000
Subject: [PATCH 35/40] fix: BAG-TYPE is governed by id

---
 pyasn1_modules/rfc7292.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc7292.py b/pyasn1_modules/rfc7292.py
index 1c9f319..3063d1b 100644
--- a/pyasn1_modules/rfc7292.py
+++ b/pyasn1_modules/rfc7292.py
@@ -142,7 +142,7 @@ class BAG_TYPE(univ.Sequence):
 BAG_TYPE.componentType = namedtype.NamedTypes(
     namedtype.NamedType('id', univ.ObjectIdentifier()),
     namedtype.NamedType('unnamed1', univ.Any(),
-        openType=opentype.OpenType('attrType', pkcs12BagTypeMap)
+        openType=opentype.OpenType('id', pkcs12BagTypeMap)
     )
 )
 
-- 
2.43.0


From ea4f237a69b4aa3becfae1d3926adae8461970c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:03 +0000
Subject: [PATCH 36/40] fix: set aa-keyUse and aa-otherCertificateFormats, not
 their neighbours

---
 pyasn1_modules/rfc7906.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyasn1_modules/rfc7906.py b/pyasn1_modules/rfc7906.py
index fa5f6b0..4111693 100644
--- a/pyasn1_modules/rfc7906.py
+++ b/pyasn1_modules/rfc7906.py
@@ -403,8 +403,8 @@ KeyUse.namedValues = namedval.NamedValues(
 
 
 aa_keyUse = Attribute()
-aa_keyPurpose['attrType'] = id_kma_keyUse
-aa_keyPurpose['attrValues'][0] = KeyUse()
+aa_keyUse['attrType'] = id_kma_keyUse
+aa_keyUse['attrValues'][0] = KeyUse()
 
 
 # Transport Key Attribute
@@ -615,8 +615,8 @@ id_kma_otherCertFormats = univ.ObjectIdentifier('2.16.840.1.101.2.1.13.19')
 
 
 aa_otherCertificateFormats = Attribute()
-aa_signatureUsage_v3['attrType'] = id_kma_otherCertFormats
-aa_signatureUsage_v3['attrValues'][0] = CertificateChoices()
+aa_otherCertificateFormats['attrType'] = id_kma_otherCertFormats
+aa_otherCertificateFormats['attrValues'][0] = CertificateChoices()
 
 
 # PKI Path Attribute
-- 
2.43.0


From 07d4a0d90c19b32bea5fb412700a9b4b25c9ebb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:05 +0000
Subject: [PATCH 37/40] fix: HeaderFieldName admits no control characters

---
 pyasn1_modules/rfc7508.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc7508.py b/pyasn1_modules/rfc7508.py
index 6646024..1363189 100644
--- a/pyasn1_modules/rfc7508.py
+++ b/pyasn1_modules/rfc7508.py
@@ -43,7 +43,7 @@ class HeaderFieldStatus(univ.Integer):
 
 class HeaderFieldName(char.VisibleString):
     subtypeSpec = (
-        constraint.PermittedAlphabetConstraint(*string.printable) -
+        constraint.PermittedAlphabetConstraint(*map(chr, range(0x20, 0x7f))) -
         constraint.PermittedAlphabetConstraint(':')
     )
 
-- 
2.43.0


From 73c2b7957a0d83bc28d96f442e8b216b4922c2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:30 +0000
Subject: [PATCH 38/40] fix: let PEM markers share an end line

---
 pyasn1_modules/pem.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pyasn1_modules/pem.py b/pyasn1_modules/pem.py
index f7c80a9..0bd749f 100644
--- a/pyasn1_modules/pem.py
+++ b/pyasn1_modules/pem.py
@@ -15,8 +15,6 @@ stSpam, stHam, stDump = 0, 1, 2
 def readPemBlocksFromFile(fileObj, *markers):
     startMarkers = dict(map(lambda x: (x[1], x[0]),
                             enumerate(map(lambda y: y[0], markers))))
-    stopMarkers = dict(map(lambda x: (x[1], x[0]),
-                           enumerate(map(lambda y: y[1], markers))))
     idx = -1
     substrate = ''
     certLines = []
@@ -33,7 +31,7 @@ def readPemBlocksFromFile(fileObj, *markers):
                 state = stHam
                 continue
         if state == stHam:
-            if certLine in stopMarkers and stopMarkers[certLine] == idx:
+            if certLine == markers[idx][1]:
                 state = stDump
             else:
                 certLines.append(certLine)
-- 
2.43.0


From a153c8992b0c6e35c7d7b5b5e56f7124e8df9a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 39/40] fix: make the OCSP client run with current pyasn1

---
 tools/ocspclient.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/tools/ocspclient.py b/tools/ocspclient.py
index 84f06fb..c2d63f9 100755
--- a/tools/ocspclient.py
+++ b/tools/ocspclient.py
@@ -14,6 +14,7 @@ try:
 except ImportError:
     import urllib.request as urllib2
 
+from pyasn1.codec.ber import encoder as ber_encoder
 from pyasn1.codec.der import decoder
 from pyasn1.codec.der import encoder
 from pyasn1.type import univ
@@ -26,22 +27,13 @@ sha1oid = univ.ObjectIdentifier((1, 3, 14, 3, 2, 26))
 
 
 # noinspection PyClassHasNoInit
-class ValueOnlyBitStringEncoder(encoder.encoder.BitStringEncoder):
-    # These methods just do not encode tag and length fields of TLV
-    def encodeTag(self, *args):
-        return ''
-
-    def encodeLength(self, *args):
-        return ''
-
-    def encodeValue(*args):
-        substrate, isConstructed = encoder.encoder.BitStringEncoder.encodeValue(*args)
+class ValueOnlyBitStringEncoder(ber_encoder.BitStringEncoder):
+    # Do not encode tag and length fields of TLV
+    def __call__(self, bitStringValue):
+        substrate, _, _ = self.encodeValue(bitStringValue, None, None)
         # OCSP-specific hack follows: cut off the "unused bit count"
         # encoded bit-string value.
-        return substrate[1:], isConstructed
-
-    def __call__(self, bitStringValue):
-        return self.encode(None, bitStringValue, defMode=True, maxChunkSize=0)
+        return substrate[1:]
 
 
 valueOnlyBitStringEncoder = ValueOnlyBitStringEncoder()
-- 
2.43.0


From 05bc5dcf073ea1a979f0dc4755883430b0cebf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:43 +0000
Subject: [PATCH 40/40] fix: stop cmcdump at content of unknown type

---
 tools/cmcdump.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/cmcdump.py b/tools/cmcdump.py
index d16774d..fc55640 100755
--- a/tools/cmcdump.py
+++ b/tools/cmcdump.py
@@ -59,3 +59,6 @@ while next_layer:
 
         next_layer = None
         data = None
+
+    else:
+        break
-- 
2.43.0

