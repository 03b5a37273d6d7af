From 33bbea1f6308526398a0f4dcde4b7193bbd8e1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:44 +0000
Subject: [PATCH 01/89] fix: choice over bool with both values in a single case
 generated an 'else' without 'if'

The first (and only) case member of a choice whose default is unreachable
was emitted as a bare 'else', which compiles in no target language.
---
 compiler/extensions/cpp/freemarker/Choice.cpp.ftl   | 4 ++--
 compiler/extensions/java/freemarker/Choice.java.ftl | 2 +-
 compiler/extensions/python/freemarker/Choice.py.ftl | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/compiler/extensions/cpp/freemarker/Choice.cpp.ftl b/compiler/extensions/cpp/freemarker/Choice.cpp.ftl
index 789f1fa..0a441df 100644
--- a/compiler/extensions/cpp/freemarker/Choice.cpp.ftl
+++ b/compiler/extensions/cpp/freemarker/Choice.cpp.ftl
@@ -112,14 +112,14 @@ ${I}default:
         </#if>
 ${I}}
     <#else>
-        <#if caseMemberList?has_content>
+        <#if caseMemberList?has_content && (caseMemberList?size > 1 || !isDefaultUnreachable)>
 ${I}const auto selector = ${selectorExpression};
 
         </#if>
         <#list caseMemberList as caseMember>
             <#if caseMember?has_next || !isDefaultUnreachable>
 ${I}<#if caseMember?index != 0>else </#if>if (<@choice_selector_condition caseMember.expressionList/>)
-            <#else>
+            <#elseif caseMember?index != 0>
 ${I}else
             </#if>
 ${I}{
diff --git a/compiler/extensions/java/freemarker/Choice.java.ftl b/compiler/extensions/java/freemarker/Choice.java.ftl
index 0529c9d..d5f02ac 100644
--- a/compiler/extensions/java/freemarker/Choice.java.ftl
+++ b/compiler/extensions/java/freemarker/Choice.java.ftl
@@ -67,7 +67,7 @@ ${I}final java.math.BigInteger selector = ${selectorExpression};
         <#list caseMemberList as caseMember>
             <#if caseMember?has_next || !isDefaultUnreachable>
 ${I}<#if caseMember_index != 0>else </#if>if (<@choice_selector_condition caseMember.caseList/>)
-            <#else>
+            <#elseif caseMember_index != 0>
 ${I}else
             </#if>
 ${I}{
diff --git a/compiler/extensions/python/freemarker/Choice.py.ftl b/compiler/extensions/python/freemarker/Choice.py.ftl
index 310293e..247b255 100644
--- a/compiler/extensions/python/freemarker/Choice.py.ftl
+++ b/compiler/extensions/python/freemarker/Choice.py.ftl
@@ -25,7 +25,7 @@ ${I}raise zserio.PythonRuntimeException("No match in choice ${name}!")
 
     </#if>
     <#list caseMemberList as caseMember>
-        <#if caseMember?has_next || !isDefaultUnreachable>
+        <#if caseMember?is_first || caseMember?has_next || !isDefaultUnreachable>
         <#if caseMember?is_first>if <#else>elif </#if><@choice_selector_condition caseMember.expressionList/>:
         <#else>
         else:
-- 
2.43.0


From d55fa77e96cb8f5869aed0ad9401e531dd6f075a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:16 +0000
Subject: [PATCH 02/89] fix: Python choice read with an empty case had no
 _choice attribute

A choice object read by from_reader whose selected case is empty raised
AttributeError in __eq__, __hash__ and packed variants.
---
 compiler/extensions/python/freemarker/Choice.py.ftl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/compiler/extensions/python/freemarker/Choice.py.ftl b/compiler/extensions/python/freemarker/Choice.py.ftl
index 247b255..c408c14 100644
--- a/compiler/extensions/python/freemarker/Choice.py.ftl
+++ b/compiler/extensions/python/freemarker/Choice.py.ftl
@@ -109,6 +109,7 @@ class ${name}:
 <#if fieldList?has_content>
         self = object.__new__(cls)
         <@compound_constructor_parameter_assignments compoundParametersData/>
+        self._choice: typing.Any = None
 
         self.read(zserio_reader)
 
@@ -141,6 +142,7 @@ class ${name}:
     <#if fieldList?has_content>
         self = object.__new__(cls)
         <@compound_constructor_parameter_assignments compoundParametersData/>
+        self._choice: typing.Any = None
 
         self.read_packed(zserio_context, zserio_reader)
 
-- 
2.43.0


From fb32ed818f302a5b35414831ca34325f73a7b191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:14 +0000
Subject: [PATCH 03/89] fix: Java BigInteger flag was propagated into shift
 counts and array indexes

'9 << 3 << 4' assigned to uint64 generated shiftLeft(new BigInteger("3")) and
'arr[x]' used with uint64 indexed an array by BigInteger with unbalanced
parentheses; neither compiles.
---
 compiler/core/src/zserio/ast/Expression.java | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/compiler/core/src/zserio/ast/Expression.java b/compiler/core/src/zserio/ast/Expression.java
index 9eed87d..d0e5066 100644
--- a/compiler/core/src/zserio/ast/Expression.java
+++ b/compiler/core/src/zserio/ast/Expression.java
@@ -734,7 +734,9 @@ public final class Expression extends AstNodeBase
             if (operand1 != null)
             {
                 operand1.propagateNeedsBigInteger();
-                if (operand2 != null)
+                // shift count and array index keep their own type
+                if (operand2 != null && type != ZserioParser.LSHIFT && type != ZserioParser.RSHIFT &&
+                        type != ZserioParser.LBRACKET)
                 {
                     operand2.propagateNeedsBigInteger();
                     if (operand3 != null)
-- 
2.43.0


From 75a5c019de2325479532334b973fe4ec3d90c4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:42 +0000
Subject: [PATCH 04/89] fix: Java choice on uint64 passed case literals in Java
 syntax to BigInteger

Case labels above INT32_MAX (7842864493020315648L), hexadecimal ones and
constants made the generated code throw NumberFormatException.
---
 compiler/extensions/java/freemarker/Choice.java.ftl       | 2 +-
 .../zserio/extension/java/ChoiceEmitterTemplateData.java  | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/compiler/extensions/java/freemarker/Choice.java.ftl b/compiler/extensions/java/freemarker/Choice.java.ftl
index d5f02ac..0e6a07a 100644
--- a/compiler/extensions/java/freemarker/Choice.java.ftl
+++ b/compiler/extensions/java/freemarker/Choice.java.ftl
@@ -11,7 +11,7 @@
         <#list caseList as case>
             <#if case_index != 0>
  ||
-                 </#if>selector.compareTo(new java.math.BigInteger("${case.expressionForIf}")) == 0<#rt>
+                 </#if>selector.compareTo(new java.math.BigInteger("${case.expressionForBigInteger}")) == 0<#rt>
         </#list>
     <#elseif selectorExpressionBitmaskTypeName??>
         <#list caseList as case>
diff --git a/compiler/extensions/java/src/zserio/extension/java/ChoiceEmitterTemplateData.java b/compiler/extensions/java/src/zserio/extension/java/ChoiceEmitterTemplateData.java
index 6fd06b3..77148fe 100644
--- a/compiler/extensions/java/src/zserio/extension/java/ChoiceEmitterTemplateData.java
+++ b/compiler/extensions/java/src/zserio/extension/java/ChoiceEmitterTemplateData.java
@@ -130,6 +130,8 @@ public final class ChoiceEmitterTemplateData extends CompoundTypeTemplateData
                         context.getJavaCaseExpressionFormatter();
                 expressionForIf = javaExpressionFormatter.formatGetter(choiceExpression);
                 expressionForCase = javaCaseExpressionFormatter.formatGetter(choiceExpression);
+                final BigInteger integerValue = choiceExpression.getIntegerValue();
+                expressionForBigInteger = (integerValue != null) ? integerValue.toString() : expressionForIf;
             }
 
             public String getExpressionForIf()
@@ -142,8 +144,14 @@ public final class ChoiceEmitterTemplateData extends CompoundTypeTemplateData
                 return expressionForCase;
             }
 
+            public String getExpressionForBigInteger()
+            {
+                return expressionForBigInteger;
+            }
+
             public final String expressionForIf;
             public final String expressionForCase;
+            public final String expressionForBigInteger;
         }
 
         private final List<Case> caseList;
-- 
2.43.0


From 1e4653e1842f4b29972fd5ba334ad58bc36edbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:07 +0000
Subject: [PATCH 05/89] fix: Java and Python write checked big integer, bitmask
 and string parameters by identity

Arguments which are results of an expression (e.g. 0 + 0 passed as varuint)
are new objects each time and valid data was refused.
---
 compiler/extensions/java/freemarker/CompoundField.inc.ftl | 5 +++++
 .../zserio/extension/java/NativeTypeInfoTemplateData.java | 8 +++++++-
 .../extensions/python/freemarker/CompoundField.inc.ftl    | 2 +-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/compiler/extensions/java/freemarker/CompoundField.inc.ftl b/compiler/extensions/java/freemarker/CompoundField.inc.ftl
index 691520c..9c63dd1 100644
--- a/compiler/extensions/java/freemarker/CompoundField.inc.ftl
+++ b/compiler/extensions/java/freemarker/CompoundField.inc.ftl
@@ -296,7 +296,12 @@ ${I}    throw new zserio.runtime.ZserioError("Write: Wrong parameter ${parameter
 ${I}            ${parameterValue} + " != " + ${instantiatedValue} + "!");
 ${I}}
             <#else>
+                <#if instantiatedParameter.typeInfo.isCompound>
 ${I}if (<@compound_get_field field/>.${parameter.getterName}() != (${instantiatedParameter.expression}))
+                <#else>
+                    <#-- value objects which can be a result of an expression, identity says nothing -->
+${I}if (!<@compound_get_field field/>.${parameter.getterName}().equals(${instantiatedParameter.expression}))
+                </#if>
 ${I}{
 ${I}    throw new zserio.runtime.ZserioError("Write: Inconsistent parameter ${parameter.name} for field ${compoundName}.${field.name}!");
 ${I}}
diff --git a/compiler/extensions/java/src/zserio/extension/java/NativeTypeInfoTemplateData.java b/compiler/extensions/java/src/zserio/extension/java/NativeTypeInfoTemplateData.java
index 32b71ac..0c91134 100644
--- a/compiler/extensions/java/src/zserio/extension/java/NativeTypeInfoTemplateData.java
+++ b/compiler/extensions/java/src/zserio/extension/java/NativeTypeInfoTemplateData.java
@@ -70,6 +70,11 @@ public final class NativeTypeInfoTemplateData
         return isBitmask;
     }
 
+    public boolean getIsCompound()
+    {
+        return isCompound;
+    }
+
     public boolean getIsBoolean()
     {
         return isBoolean;
@@ -132,7 +137,7 @@ public final class NativeTypeInfoTemplateData
         else
             arrayableInfo = null;
 
-        final boolean isCompound = javaNativeType instanceof NativeCompoundType;
+        isCompound = javaNativeType instanceof NativeCompoundType;
         final boolean isSqlDatabase = javaNativeType instanceof NativeSqlDatabaseType;
         final boolean isSqlTable = javaNativeType instanceof NativeSqlTableType;
         final boolean isArray = javaNativeType instanceof NativeArrayType;
@@ -155,6 +160,7 @@ public final class NativeTypeInfoTemplateData
     private final boolean isBytes;
     private final boolean isEnum;
     private final boolean isBitmask;
+    private final boolean isCompound;
     private final boolean isBoolean;
     private final boolean isLong;
     private final boolean isFloat;
diff --git a/compiler/extensions/python/freemarker/CompoundField.inc.ftl b/compiler/extensions/python/freemarker/CompoundField.inc.ftl
index 1899346..e23c479 100644
--- a/compiler/extensions/python/freemarker/CompoundField.inc.ftl
+++ b/compiler/extensions/python/freemarker/CompoundField.inc.ftl
@@ -359,7 +359,7 @@ ${I}                                        "{0} != {1}!".format(len(self.<@fiel
 ${I}# check parameters
         <#list field.compound.instantiatedParameters as instantiatedParameter>
             <#local parameter=field.compound.parameters.list[instantiatedParameter?index]/>
-            <#local compareOperator><#if parameter.typeInfo.isBuiltin>!=<#else>is not</#if><#t></#local>
+            <#local compareOperator><#if parameter.typeInfo.isBuiltin || parameter.typeInfo.isBitmask>!=<#else>is not</#if><#t></#local>
 ${I}if self.<@field_member_name field/>.${parameter.propertyName} ${compareOperator} (${instantiatedParameter.expression}):
 ${I}    raise zserio.PythonRuntimeException("Wrong parameter ${parameter.name} for field ${compoundName}.${field.name}: "
 ${I}                                        "{0} != {1}!".format(self.<@field_member_name field/>.${parameter.propertyName}, ${instantiatedParameter.expression}))
-- 
2.43.0


From 223f75969b7f4a58dba9b2d266ac9844f442f9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:59 +0000
Subject: [PATCH 06/89] fix: Python integer division and modulo rounded to
 negative infinity

All other languages and the compiler itself truncate towards zero, so that
the same schema had different layout and constraints in Python.
---
 .../python/runtime/src/zserio/builtin.py      | 32 +++++++++++++++++++
 .../PythonExpressionFormattingPolicy.java     | 12 +++++--
 2 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/compiler/extensions/python/runtime/src/zserio/builtin.py b/compiler/extensions/python/runtime/src/zserio/builtin.py
index 96fd5f7..7813b41 100644
--- a/compiler/extensions/python/runtime/src/zserio/builtin.py
+++ b/compiler/extensions/python/runtime/src/zserio/builtin.py
@@ -46,3 +46,35 @@ def lengthof_string(string: str) -> int:
     """
 
     return len(string.encode("utf-8"))
+
+
+def divide(dividend: int, divisor: int) -> int:
+    """
+    Gets the integer quotient truncated towards zero.
+
+    This method implements zserio operator '/' for integers, the result is the same as in other languages.
+
+    :param dividend: Dividend.
+    :param divisor: Divisor.
+    :returns: Quotient truncated towards zero.
+    """
+
+    quotient = abs(dividend) // abs(divisor)
+
+    return quotient if (dividend < 0) == (divisor < 0) else -quotient
+
+
+def remainder(dividend: int, divisor: int) -> int:
+    """
+    Gets the remainder after the integer division, its sign is the sign of the dividend.
+
+    This method implements zserio operator '%', the result is the same as in other languages.
+
+    :param dividend: Dividend.
+    :param divisor: Divisor.
+    :returns: Remainder after the division truncated towards zero.
+    """
+
+    result = abs(dividend) % abs(divisor)
+
+    return result if dividend >= 0 else -result
diff --git a/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java b/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
index c64b2fd..bde2a6d 100644
--- a/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
+++ b/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
@@ -319,17 +319,23 @@ class PythonExpressionFormattingPolicy implements ExpressionFormattingPolicy
     @Override
     public BinaryExpressionFormatting getDivide(Expression expr)
     {
-        // simulate behavior from other languages (#718)
+        // simulate behavior from other languages (#718), operators '//' and '%' round to negative infinity
         if (expr.getExprType() == Expression.ExpressionType.INTEGER)
-            return new BinaryExpressionFormatting(" // ");
+        {
+            importCollector.importPackage("zserio");
+            return new BinaryExpressionFormatting("zserio.builtin.divide(", ", ", ")");
+        }
         else
+        {
             return new BinaryExpressionFormatting(" / ");
+        }
     }
 
     @Override
     public BinaryExpressionFormatting getModulo(Expression expr)
     {
-        return new BinaryExpressionFormatting(" % ");
+        importCollector.importPackage("zserio");
+        return new BinaryExpressionFormatting("zserio.builtin.remainder(", ", ", ")");
     }
 
     @Override
-- 
2.43.0


From 045596b76d339f0ca697d94a3199f87739a1a779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:59 +0000
Subject: [PATCH 07/89] fix: Java big integer modulo threw or was positive for
 negative operands

Operator % has to have the same result as for the other integer types.
---
 .../extension/java/JavaDefaultExpressionFormattingPolicy.java   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java b/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java
index 42eecaa..5d6afe0 100644
--- a/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java
+++ b/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java
@@ -407,7 +407,7 @@ public abstract class JavaDefaultExpressionFormattingPolicy extends DefaultExpre
         if (!expr.needsBigInteger())
             return super.getModulo(expr);
 
-        return new BinaryExpressionFormatting("", ".mod(", ")");
+        return new BinaryExpressionFormatting("", ".remainder(", ")");
     }
 
     @Override
-- 
2.43.0


From 2be13d6d2fad9c7850abb5f4e7cf05b7098f467e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:30 +0000
Subject: [PATCH 08/89] fix: Python generated wrong code for '!' and
 comparisons used as operands of '==' and '!='

'a == !b' was a syntax error and 'a < b == c' a chained comparison.
---
 .../PythonExpressionFormattingPolicy.java     | 36 +++++++++++++++++--
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java b/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
index bde2a6d..1bffb99 100644
--- a/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
+++ b/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
@@ -1,5 +1,6 @@
 package zserio.extension.python;
 
+import zserio.antlr.ZserioParser;
 import zserio.ast.BitmaskType;
 import zserio.ast.BitmaskValue;
 import zserio.ast.Constant;
@@ -158,7 +159,8 @@ class PythonExpressionFormattingPolicy implements ExpressionFormattingPolicy
     @Override
     public UnaryExpressionFormatting getBang(Expression expr)
     {
-        return new UnaryExpressionFormatting("not ");
+        // operator 'not' has lower precedence than comparison operators
+        return new UnaryExpressionFormatting("(not ", ")");
     }
 
     @Override
@@ -253,13 +255,13 @@ class PythonExpressionFormattingPolicy implements ExpressionFormattingPolicy
     @Override
     public BinaryExpressionFormatting getEq(Expression expr)
     {
-        return new BinaryExpressionFormatting(" == ");
+        return getEqualityFormatting(expr, " == ");
     }
 
     @Override
     public BinaryExpressionFormatting getNe(Expression expr)
     {
-        return new BinaryExpressionFormatting(" != ");
+        return getEqualityFormatting(expr, " != ");
     }
 
     @Override
@@ -399,6 +401,34 @@ class PythonExpressionFormattingPolicy implements ExpressionFormattingPolicy
         result.append(AccessorNameFormatter.getPropertyName(param));
     }
 
+    private BinaryExpressionFormatting getEqualityFormatting(Expression expr, String operator)
+    {
+        // comparisons in Python can be chained, so a comparison used as an operand must be in parenthesis
+        final boolean isOperand1Comparison = isComparison(expr.op1());
+        final boolean isOperand2Comparison = isComparison(expr.op2());
+
+        return new BinaryExpressionFormatting(isOperand1Comparison ? "(" : "",
+                (isOperand1Comparison ? ")" : "") + operator + (isOperand2Comparison ? "(" : ""),
+                isOperand2Comparison ? ")" : "");
+    }
+
+    private static boolean isComparison(Expression expr)
+    {
+        switch (expr.getType())
+        {
+        case ZserioParser.EQ:
+        case ZserioParser.NE:
+        case ZserioParser.LT:
+        case ZserioParser.LE:
+        case ZserioParser.GT:
+        case ZserioParser.GE:
+            return true;
+
+        default:
+            return false;
+        }
+    }
+
     private void formatEnumItem(StringBuilder result, boolean isMostLeftId, EnumItem enumItem,
             ZserioType exprType) throws ZserioExtensionException
     {
-- 
2.43.0


From c604d6ae77027f3fe91798c56479713e4624438b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:12 +0000
Subject: [PATCH 09/89] fix: Python subtype of extern used zserio without
 importing it

---
 .../zserio/extension/python/SubtypeEmitterTemplateData.java    | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/compiler/extensions/python/src/zserio/extension/python/SubtypeEmitterTemplateData.java b/compiler/extensions/python/src/zserio/extension/python/SubtypeEmitterTemplateData.java
index 6bff0f0..b1514ec 100644
--- a/compiler/extensions/python/src/zserio/extension/python/SubtypeEmitterTemplateData.java
+++ b/compiler/extensions/python/src/zserio/extension/python/SubtypeEmitterTemplateData.java
@@ -2,6 +2,7 @@ package zserio.extension.python;
 
 import zserio.ast.Subtype;
 import zserio.extension.common.ZserioExtensionException;
+import zserio.extension.python.types.NativeBitBufferType;
 import zserio.extension.python.types.PythonNativeType;
 
 /**
@@ -17,6 +18,8 @@ public final class SubtypeEmitterTemplateData extends UserTypeTemplateData
         final PythonNativeMapper pythonNativeMapper = context.getPythonNativeMapper();
         final PythonNativeType nativeTargetType = pythonNativeMapper.getPythonType(subtype.getTypeReference());
         importType(nativeTargetType);
+        if (nativeTargetType instanceof NativeBitBufferType)
+            importPackage("zserio"); // the target type is defined in the runtime library
         targetTypeName = PythonFullNameFormatter.getFullName(nativeTargetType);
     }
 
-- 
2.43.0


From 48a562d3c217aab6e4f2d680d149b3197a4fa77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:42 +0000
Subject: [PATCH 10/89] fix: C++ literals above INT32_MAX were unsigned
 although they fit to int64

A signed operand of the same expression was converted to unsigned and e.g. constraint
'int64 a : a <= 5000000000' was false for all negative values.
---
 .../extension/cpp/CppExpressionFormattingPolicy.java     | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/compiler/extensions/cpp/src/zserio/extension/cpp/CppExpressionFormattingPolicy.java b/compiler/extensions/cpp/src/zserio/extension/cpp/CppExpressionFormattingPolicy.java
index 3daca7d..6abad3d 100644
--- a/compiler/extensions/cpp/src/zserio/extension/cpp/CppExpressionFormattingPolicy.java
+++ b/compiler/extensions/cpp/src/zserio/extension/cpp/CppExpressionFormattingPolicy.java
@@ -333,12 +333,13 @@ public class CppExpressionFormattingPolicy extends DefaultExpressionFormattingPo
     private String getIntegerLiteralSuffix(BigInteger literalValue, boolean isNegative)
     {
         String literalSuffix = "";
-        final long maxAbsIntValue = (isNegative) ? -(long)Integer.MIN_VALUE : 0xFFFFFFFFL;
+        final long maxAbsIntValue = (isNegative) ? -(long)Integer.MIN_VALUE : Integer.MAX_VALUE;
         if (literalValue.compareTo(BigInteger.valueOf(maxAbsIntValue)) > 0)
         {
-            // long long value
-            literalSuffix =
-                    (isNegative) ? CPP_SIGNED_LONG_LONG_LITERAL_SUFFIX : CPP_UNSIGNED_LONG_LONG_LITERAL_SUFFIX;
+            // long long value, unsigned only if it does not fit otherwise it spoils signed operands
+            literalSuffix = (isNegative || literalValue.bitLength() < Long.SIZE)
+                    ? CPP_SIGNED_LONG_LONG_LITERAL_SUFFIX
+                    : CPP_UNSIGNED_LONG_LONG_LITERAL_SUFFIX;
         }
 
         return literalSuffix;
-- 
2.43.0


From e82be391852dc33fdada8d6144694b28d518c852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:24 +0000
Subject: [PATCH 11/89] fix: Java optional field with default value was set
 after it was read as not present

---
 compiler/extensions/java/freemarker/CompoundField.inc.ftl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/compiler/extensions/java/freemarker/CompoundField.inc.ftl b/compiler/extensions/java/freemarker/CompoundField.inc.ftl
index 9c63dd1..fe0c3f1 100644
--- a/compiler/extensions/java/freemarker/CompoundField.inc.ftl
+++ b/compiler/extensions/java/freemarker/CompoundField.inc.ftl
@@ -127,6 +127,10 @@ ${I}if (in.readBool())
         </#if>
 ${I}{
         <@compound_read_field_inner field, compoundName, indent + 1, packed/>
+${I}}
+${I}else
+${I}{
+${I}    <@field_member_name field/> = null;
 ${I}}
     <#else>
         <@compound_read_field_inner field, compoundName, indent, packed/>
-- 
2.43.0


From 3288f6f4ac3b7d3e10330acb97927865eca97b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:32 +0000
Subject: [PATCH 12/89] fix: Java choices and unions compared fields of bytes
 type by identity

---
 compiler/extensions/java/freemarker/Choice.java.ftl | 5 +----
 compiler/extensions/java/freemarker/Union.java.ftl  | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/compiler/extensions/java/freemarker/Choice.java.ftl b/compiler/extensions/java/freemarker/Choice.java.ftl
index 0e6a07a..3f268eb 100644
--- a/compiler/extensions/java/freemarker/Choice.java.ftl
+++ b/compiler/extensions/java/freemarker/Choice.java.ftl
@@ -368,10 +368,7 @@ ${I}break;
                     <@compound_compare_parameter parameter/><#if parameter?has_next || fieldList?has_content> &&<#else>;</#if>
     </#list>
     <#if fieldList?has_content>
-                    (
-                        (objectChoice == null && that.objectChoice == null) ||
-                        (objectChoice != null && objectChoice.equals(that.objectChoice))
-                    );
+                    java.util.Objects.deepEquals(objectChoice, that.objectChoice);
     </#if>
         }
 
diff --git a/compiler/extensions/java/freemarker/Union.java.ftl b/compiler/extensions/java/freemarker/Union.java.ftl
index f22e86f..b57638a 100644
--- a/compiler/extensions/java/freemarker/Union.java.ftl
+++ b/compiler/extensions/java/freemarker/Union.java.ftl
@@ -280,10 +280,7 @@ public class ${name} implements <#rt>
     </#list>
     <#if fieldList?has_content>
                     choiceTag == that.choiceTag &&
-                    (
-                        (objectChoice == null && that.objectChoice == null) ||
-                        (objectChoice != null && objectChoice.equals(that.objectChoice))
-                    );
+                    java.util.Objects.deepEquals(objectChoice, that.objectChoice);
     </#if>
         }
 
-- 
2.43.0


From 725c43423e1af6440dfb525e9437d14573f6dcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:48 +0000
Subject: [PATCH 13/89] fix: C++ readVarSize accepted 5-byte values above the
 limit modulo 2^32

---
 .../cpp/runtime/src/zserio/BitStreamReader.cpp         | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/BitStreamReader.cpp b/compiler/extensions/cpp/runtime/src/zserio/BitStreamReader.cpp
index c4448df..83dc53e 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/BitStreamReader.cpp
+++ b/compiler/extensions/cpp/runtime/src/zserio/BitStreamReader.cpp
@@ -804,14 +804,16 @@ uint32_t BitStreamReader::readVarSize()
         return result;
     }
 
-    result = result << 8U | static_cast<uint8_t>(readBitsImpl(m_context, 8)); // byte 5
-    if (result > VARSIZE_MAX_VALUE)
+    // byte 5, the value can have up to 36 bits
+    const uint64_t longResult =
+            static_cast<uint64_t>(result) << 8U | static_cast<uint8_t>(readBitsImpl(m_context, 8));
+    if (longResult > VARSIZE_MAX_VALUE)
     {
         throw CppRuntimeException("BitStreamReader: Read value '")
-                << result << "' is out of range for varsize type!";
+                << longResult << "' is out of range for varsize type!";
     }
 
-    return result;
+    return static_cast<uint32_t>(longResult);
 }
 
 float BitStreamReader::readFloat16()
-- 
2.43.0


From 68ba91ab66749a8ef252238b6a2ac53182b5451f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:48 +0000
Subject: [PATCH 14/89] fix: Java bit stream reader read full bytes behind the
 exact bit size

---
 .../runtime/io/ByteArrayBitStreamReader.java  | 53 ++++++++++++-------
 1 file changed, 35 insertions(+), 18 deletions(-)

diff --git a/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamReader.java b/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamReader.java
index 3574bff..c348241 100644
--- a/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamReader.java
+++ b/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamReader.java
@@ -79,8 +79,9 @@ public class ByteArrayBitStreamReader extends ByteArrayBitStreamBase implements
      */
     public ByteArrayBitStreamReader(final byte[] bytes, long bitSize, int maxPreallocatedArraySize)
     {
-        this.buffer = new byte[bytes.length];
-        System.arraycopy(bytes, 0, this.buffer, 0, bytes.length);
+        // bytes behind the given bit size are not part of the stream
+        this.buffer = new byte[(int)Math.min(bytes.length, (bitSize + 7) / 8)];
+        System.arraycopy(bytes, 0, this.buffer, 0, this.buffer.length);
         final byte lastBits = (byte)(bitSize % 8);
         lastByteBits = lastBits == 0 ? 8 : lastBits;
         this.maxPreallocatedArraySize = maxPreallocatedArraySize;
@@ -117,7 +118,7 @@ public class ByteArrayBitStreamReader extends ByteArrayBitStreamBase implements
         byte result;
         if (bitOffset == 0)
         {
-            result = nextByte();
+            result = nextFullByte();
         }
         else
         {
@@ -138,8 +139,8 @@ public class ByteArrayBitStreamReader extends ByteArrayBitStreamBase implements
         short result;
         if (bitOffset == 0)
         {
-            final byte b0 = nextByte();
-            final byte b1 = nextByte();
+            final byte b0 = nextFullByte();
+            final byte b1 = nextFullByte();
             result = makeShort(b0, b1);
         }
         else
@@ -161,10 +162,10 @@ public class ByteArrayBitStreamReader extends ByteArrayBitStreamBase implements
         int result;
         if (bitOffset == 0)
         {
-            final byte b0 = nextByte();
-            final byte b1 = nextByte();
-            final byte b2 = nextByte();
-            final byte b3 = nextByte();
+            final byte b0 = nextFullByte();
+            final byte b1 = nextFullByte();
+            final byte b2 = nextFullByte();
+            final byte b3 = nextFullByte();
             result = makeInt(b0, b1, b2, b3);
         }
         else
@@ -186,14 +187,14 @@ public class ByteArrayBitStreamReader extends ByteArrayBitStreamBase implements
         long result;
         if (bitOffset == 0)
         {
-            final byte b0 = nextByte();
-            final byte b1 = nextByte();
-            final byte b2 = nextByte();
-            final byte b3 = nextByte();
-            final byte b4 = nextByte();
-            final byte b5 = nextByte();
-            final byte b6 = nextByte();
-            final byte b7 = nextByte();
+            final byte b0 = nextFullByte();
+            final byte b1 = nextFullByte();
+            final byte b2 = nextFullByte();
+            final byte b3 = nextFullByte();
+            final byte b4 = nextFullByte();
+            final byte b5 = nextFullByte();
+            final byte b6 = nextFullByte();
+            final byte b7 = nextFullByte();
             result = makeLong(b0, b1, b2, b3, b4, b5, b6, b7);
         }
         else
@@ -751,7 +752,7 @@ public class ByteArrayBitStreamReader extends ByteArrayBitStreamBase implements
 
     private int read(final byte[] dest, final int offset, final int length) throws IOException
     {
-        if (bytePosition + length - 1 >= buffer.length)
+        if (8L * bytePosition + 8L * length > getBufferBitSize())
             throw new IOException("ByteArrayBitStreamReader: Unable to read " + length +
                     " bytes on offset position " + bytePosition +
                     ". It's beyond end of the stream with length " + buffer.length + ".");
@@ -782,6 +783,22 @@ public class ByteArrayBitStreamReader extends ByteArrayBitStreamBase implements
         return buffer[bytePosition++];
     }
 
+    /**
+     * Returns the next byte without resetting the bit offset and checks that all its bits are available.
+     *
+     * @return Read next byte.
+     *
+     * @throws IOException If the reading failed.
+     */
+    private byte nextFullByte() throws IOException
+    {
+        if (lastByteBits < 8 && bytePosition == buffer.length - 1)
+            throw new IOException("ByteArrayBitStreamReader: Unable to read byte on offset position " +
+                    bytePosition + ". Only " + lastByteBits + " bits are available in the last byte.");
+
+        return nextByte();
+    }
+
     /**
      * Returns the next unsigned byte without resetting the bit offset.
      *
-- 
2.43.0


From 8d029462fa21cee657c4e8c794b07db8a906acf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:15 +0000
Subject: [PATCH 15/89] fix: Java checked constraints of extended fields which
 are not present

---
 compiler/extensions/java/freemarker/CompoundField.inc.ftl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/extensions/java/freemarker/CompoundField.inc.ftl b/compiler/extensions/java/freemarker/CompoundField.inc.ftl
index fe0c3f1..93bddd7 100644
--- a/compiler/extensions/java/freemarker/CompoundField.inc.ftl
+++ b/compiler/extensions/java/freemarker/CompoundField.inc.ftl
@@ -255,7 +255,8 @@ ${I}<@compound_get_field field/>.write(out);
 <#macro compound_check_constraint_field field compoundName indent>
     <#local I>${""?left_pad(indent * 4)}</#local>
     <#if field.constraint??>
-${I}if (<#if field.optional??>${field.optional.isUsedIndicatorName}() && </#if>!(${field.constraint}))
+${I}if (<#if field.isExtended>${field.isPresentIndicatorName}() && </#if><#rt>
+        <#lt><#if field.optional??>${field.optional.isUsedIndicatorName}() && </#if>!(${field.constraint}))
 ${I}    throw new zserio.runtime.ConstraintError("Constraint violated at ${compoundName}.${field.name}!");
     </#if>
 </#macro>
-- 
2.43.0


From 193eefe51e0332b5eb378ded85ba01453fe040fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:15 +0000
Subject: [PATCH 16/89] fix: Java bit stream reader aligned behind the end of
 the stream

---
 .../src/zserio/runtime/io/ByteArrayBitStreamReader.java    | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamReader.java b/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamReader.java
index c348241..4163af3 100644
--- a/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamReader.java
+++ b/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamReader.java
@@ -764,7 +764,12 @@ public class ByteArrayBitStreamReader extends ByteArrayBitStreamBase implements
 
     private void skipBits(final int bitCnt) throws IOException
     {
-        setBitPosition(getBitPosition() + bitCnt);
+        final long newBitPosition = getBitPosition() + bitCnt;
+        if (newBitPosition > getBufferBitSize())
+            throw new IOException("ByteArrayBitStreamReader: Unable to skip " + bitCnt +
+                    " bits on bit position " + getBitPosition() + ". It's beyond end of the stream.");
+
+        setBitPosition(newBitPosition);
     }
 
     /**
-- 
2.43.0


From 268d151156b16bc074ce9356c66403d1f368c2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:04 +0000
Subject: [PATCH 17/89] fix: C++ and Python hash codes of equal negative and
 positive zero differed

---
 compiler/extensions/cpp/runtime/src/zserio/HashCodeUtil.h | 6 ++++--
 compiler/extensions/python/runtime/src/zserio/hashcode.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/HashCodeUtil.h b/compiler/extensions/cpp/runtime/src/zserio/HashCodeUtil.h
index 77b6897..21aad3c 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/HashCodeUtil.h
+++ b/compiler/extensions/cpp/runtime/src/zserio/HashCodeUtil.h
@@ -72,7 +72,8 @@ inline typename std::enable_if<std::is_integral<T>::value && (sizeof(T) > 4), ui
  */
 inline uint32_t calcHashCode(uint32_t seedValue, float value)
 {
-    return calcHashCode(seedValue, convertFloatToUInt32(value));
+    // adding of positive zero turns negative zero to the positive one which compares equal
+    return calcHashCode(seedValue, convertFloatToUInt32(value + 0.0F));
 }
 
 /**
@@ -85,7 +86,8 @@ inline uint32_t calcHashCode(uint32_t seedValue, float value)
  */
 inline uint32_t calcHashCode(uint32_t seedValue, double value)
 {
-    return calcHashCode(seedValue, convertDoubleToUInt64(value));
+    // adding of positive zero turns negative zero to the positive one which compares equal
+    return calcHashCode(seedValue, convertDoubleToUInt64(value + 0.0));
 }
 
 /**
diff --git a/compiler/extensions/python/runtime/src/zserio/hashcode.py b/compiler/extensions/python/runtime/src/zserio/hashcode.py
index edd055a..2bc8ae3 100644
--- a/compiler/extensions/python/runtime/src/zserio/hashcode.py
+++ b/compiler/extensions/python/runtime/src/zserio/hashcode.py
@@ -65,7 +65,8 @@ def calc_hashcode_float32(seed_value: int, value: float) -> int:
     if value is None:
         return calc_hashcode_int32(seed_value, 0)
 
-    int_value = float_to_uint32(value)
+    # adding of positive zero turns negative zero to the positive one which compares equal
+    int_value = float_to_uint32(value + 0.0)
     return calc_hashcode_int32(seed_value, int_value)
 
 
@@ -81,7 +82,8 @@ def calc_hashcode_float64(seed_value: int, value: float) -> int:
     if value is None:
         return calc_hashcode_int32(seed_value, 0)
 
-    int_value = float_to_uint64(value)
+    # adding of positive zero turns negative zero to the positive one which compares equal
+    int_value = float_to_uint64(value + 0.0)
     return calc_hashcode_int64(seed_value, int_value)
 
 
-- 
2.43.0


From ccfb855c081aecf7a7c0bff2c8a766805df0cbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:43 +0000
Subject: [PATCH 18/89] fix: C++ allocator propagating copy of a parameterized
 union left its initialized flag unset

---
 compiler/extensions/cpp/freemarker/Union.cpp.ftl | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/compiler/extensions/cpp/freemarker/Union.cpp.ftl b/compiler/extensions/cpp/freemarker/Union.cpp.ftl
index 95ad2b3..e42c49e 100644
--- a/compiler/extensions/cpp/freemarker/Union.cpp.ftl
+++ b/compiler/extensions/cpp/freemarker/Union.cpp.ftl
@@ -226,6 +226,11 @@ ${name}::${name}(::zserio::PropagateAllocatorT, ::zserio::NoInitT,
         const ${name}& other, const allocator_type&<#rt>
         <#lt><#if fieldList?has_content> allocator</#if>)<#rt>
 <@cpp_initializer_list>
+    <#if needs_compound_initialization(compoundConstructorsData)>
+        m_isInitialized(false)
+    <#elseif has_field_with_initialization(compoundConstructorsData.fieldList)>
+        m_areChildrenInitialized(false)
+    </#if>
     <#if withParsingInfoCode>
         m_parsingInfo(other.m_parsingInfo)
     </#if>
-- 
2.43.0


From 8e0da7421c2284746137c0cd68f9ab064685df1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:43 +0000
Subject: [PATCH 19/89] fix: C++ bit buffers which differ only in bit size were
 neither equal nor ordered

---
 compiler/extensions/cpp/runtime/src/zserio/BitBuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/BitBuffer.h b/compiler/extensions/cpp/runtime/src/zserio/BitBuffer.h
index 6d1db30..dacc191 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/BitBuffer.h
+++ b/compiler/extensions/cpp/runtime/src/zserio/BitBuffer.h
@@ -362,7 +362,7 @@ bool BasicBitBuffer<ALLOC>::operator<(const BasicBitBuffer<ALLOC>& other) const
         return false;
     }
 
-    return (first1 == last1) && (first2 != last2);
+    return m_bitSize < other.m_bitSize;
 }
 
 template <typename ALLOC>
-- 
2.43.0


From 6cab920efbea8a738fbc63af05b42ce527f07f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:43 +0000
Subject: [PATCH 20/89] fix: Java equals threw NullPointerException for an enum
 field set in one object only

---
 compiler/extensions/java/freemarker/CompoundField.inc.ftl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/extensions/java/freemarker/CompoundField.inc.ftl b/compiler/extensions/java/freemarker/CompoundField.inc.ftl
index 93bddd7..8aa010f 100644
--- a/compiler/extensions/java/freemarker/CompoundField.inc.ftl
+++ b/compiler/extensions/java/freemarker/CompoundField.inc.ftl
@@ -330,8 +330,8 @@ java.lang.Double.doubleToLongBits(<@compound_get_field field/>) == java.lang.Dou
     <#elseif field.typeInfo.isBytes>
 ((<@compound_get_field field/> == null) ? that.<@compound_get_field field/> == null : java.util.Arrays.equals(<@compound_get_field field/>, that.<@compound_get_field field/>))<#rt>
     <#elseif field.typeInfo.isEnum>
-        <#-- enum type: compare by getValue() and == -->
-((<@compound_get_field field/> == null) ? that.<@compound_get_field field/> == null : <@compound_get_field field/>.getValue() == that.<@compound_get_field field/>.getValue())<#rt>
+        <#-- enum type: items are unique, compare by == which works for null as well -->
+<@compound_get_field field/> == that.<@compound_get_field field/><#rt>
     <#else>
         <#-- complex type: compare by equals() but check for possible null -->
 ((<@compound_get_field field/> == null) ? that.<@compound_get_field field/> == null : <@compound_get_field field/>.equals(that.<@compound_get_field field/>))<#rt>
-- 
2.43.0


From 3770f8a985f0d2f2e6387932016d96169c3ff5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:02 +0000
Subject: [PATCH 21/89] fix: C++ self assignment cleared arrays of
 parameterized elements

---
 compiler/extensions/cpp/runtime/src/zserio/Array.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/Array.h b/compiler/extensions/cpp/runtime/src/zserio/Array.h
index 2f01896..8f79935 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/Array.h
+++ b/compiler/extensions/cpp/runtime/src/zserio/Array.h
@@ -458,12 +458,15 @@ public:
             typename std::enable_if<std::is_constructible<T, NoInitT, T>::value, int>::type = 0>
     Array& assign(NoInitT, const Array& other)
     {
-        const RawArray rawArray(other.m_rawArray.get_allocator());
-        m_rawArray = rawArray; // copy assign to get correct allocator propagation behaviour
-        m_rawArray.reserve(other.m_rawArray.size());
-        for (const auto& value : other.m_rawArray)
+        if (this != &other)
         {
-            m_rawArray.emplace_back(NoInit, value);
+            const RawArray rawArray(other.m_rawArray.get_allocator());
+            m_rawArray = rawArray; // copy assign to get correct allocator propagation behaviour
+            m_rawArray.reserve(other.m_rawArray.size());
+            for (const auto& value : other.m_rawArray)
+            {
+                m_rawArray.emplace_back(NoInit, value);
+            }
         }
 
         return *this;
-- 
2.43.0


From e7140a06fbc95430dc7d3f4b1d24d259471f534f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:19 +0000
Subject: [PATCH 22/89] fix: alignTo of bit stream writers and readers skips
 more than 64 bits (C++, Java)

---
 .../extensions/cpp/runtime/src/zserio/BitStreamReader.cpp | 8 ++++++--
 .../extensions/cpp/runtime/src/zserio/BitStreamWriter.cpp | 8 ++++++--
 .../src/zserio/runtime/io/ByteArrayBitStreamWriter.java   | 2 +-
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/BitStreamReader.cpp b/compiler/extensions/cpp/runtime/src/zserio/BitStreamReader.cpp
index 83dc53e..bf2fd48 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/BitStreamReader.cpp
+++ b/compiler/extensions/cpp/runtime/src/zserio/BitStreamReader.cpp
@@ -867,8 +867,12 @@ void BitStreamReader::alignTo(size_t alignment)
     const BitPosType offset = getBitPosition() % alignment;
     if (offset != 0)
     {
-        const uint8_t skip = static_cast<uint8_t>(alignment - offset);
-        (void)readBits64(skip);
+        size_t skip = alignment - offset;
+        for (; skip > 64; skip -= 64)
+        {
+            (void)readBits64(64);
+        }
+        (void)readBits64(static_cast<uint8_t>(skip));
     }
 }
 
diff --git a/compiler/extensions/cpp/runtime/src/zserio/BitStreamWriter.cpp b/compiler/extensions/cpp/runtime/src/zserio/BitStreamWriter.cpp
index 9c73888..7d7f598 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/BitStreamWriter.cpp
+++ b/compiler/extensions/cpp/runtime/src/zserio/BitStreamWriter.cpp
@@ -538,8 +538,12 @@ void BitStreamWriter::alignTo(size_t alignment)
     const BitPosType offset = getBitPosition() % alignment;
     if (offset != 0)
     {
-        const uint8_t skip = static_cast<uint8_t>(alignment - offset);
-        writeBits64(0, skip);
+        size_t skip = alignment - offset;
+        for (; skip > 64; skip -= 64)
+        {
+            writeBits64(0, 64);
+        }
+        writeBits64(0, static_cast<uint8_t>(skip));
     }
 }
 
diff --git a/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamWriter.java b/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamWriter.java
index d6433ae..75f3e9c 100644
--- a/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamWriter.java
+++ b/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamWriter.java
@@ -499,7 +499,7 @@ public final class ByteArrayBitStreamWriter extends ByteArrayBitStreamBase imple
 
     private void skipBits(final int bitCnt) throws IOException
     {
-        writeBits(0, bitCnt);
+        writeZeros(bitCnt);
     }
 
     private void write(final int b) throws IOException
-- 
2.43.0


From 95d79cf6f9a85b809417c92ef8f0add64ed54e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:19 +0000
Subject: [PATCH 23/89] fix: finite floats above the float16 range become
 infinity instead of NaN or zero

---
 compiler/extensions/cpp/runtime/src/zserio/FloatUtil.cpp     | 5 +++--
 .../java/runtime/src/zserio/runtime/FloatUtil.java           | 5 +++--
 compiler/extensions/python/runtime/src/zserio/float.py       | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/FloatUtil.cpp b/compiler/extensions/cpp/runtime/src/zserio/FloatUtil.cpp
index 270f903..64a93ce 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/FloatUtil.cpp
+++ b/compiler/extensions/cpp/runtime/src/zserio/FloatUtil.cpp
@@ -114,10 +114,11 @@ uint16_t convertFloatToUInt16(float float32)
         // normal number
         const int16_t signedExponent16 = static_cast<int16_t>(static_cast<int32_t>(exponent32) -
                 static_cast<int32_t>(FLOAT32_EXPONENT_BIAS) + static_cast<int32_t>(FLOAT16_EXPONENT_BIAS));
-        if (signedExponent16 > FLOAT16_EXPONENT_INFINITY_NAN)
+        if (signedExponent16 >= FLOAT16_EXPONENT_INFINITY_NAN)
         {
-            // exponent overflow, set infinity or NaN
+            // exponent overflow, set infinity
             exponent16 = FLOAT16_EXPONENT_INFINITY_NAN;
+            significand16 = 0;
         }
         else if (signedExponent16 <= 0)
         {
diff --git a/compiler/extensions/java/runtime/src/zserio/runtime/FloatUtil.java b/compiler/extensions/java/runtime/src/zserio/runtime/FloatUtil.java
index bc295e6..e3ef2bc 100644
--- a/compiler/extensions/java/runtime/src/zserio/runtime/FloatUtil.java
+++ b/compiler/extensions/java/runtime/src/zserio/runtime/FloatUtil.java
@@ -115,10 +115,11 @@ public final class FloatUtil
         {
             // normal number
             final short signedExponent16 = (short)(exponent32 - FLOAT32_EXPONENT_BIAS + FLOAT16_EXPONENT_BIAS);
-            if (signedExponent16 > FLOAT16_EXPONENT_INFINITY_NAN)
+            if (signedExponent16 >= FLOAT16_EXPONENT_INFINITY_NAN)
             {
-                // exponent overflow, set infinity or NaN
+                // exponent overflow, set infinity
                 exponent16 = FLOAT16_EXPONENT_INFINITY_NAN;
+                significand16 = 0;
             }
             else if (signedExponent16 <= 0)
             {
diff --git a/compiler/extensions/python/runtime/src/zserio/float.py b/compiler/extensions/python/runtime/src/zserio/float.py
index b245b17..9a4d05f 100644
--- a/compiler/extensions/python/runtime/src/zserio/float.py
+++ b/compiler/extensions/python/runtime/src/zserio/float.py
@@ -89,9 +89,10 @@ def float_to_uint16(float64: float) -> int:
     else:
         # normal number
         signed_exponent16 = exponent32 - FLOAT32_EXPONENT_BIAS + FLOAT16_EXPONENT_BIAS
-        if signed_exponent16 > FLOAT16_EXPONENT_INFINITY_NAN:
-            # exponent overflow, set infinity or NaN
+        if signed_exponent16 >= FLOAT16_EXPONENT_INFINITY_NAN:
+            # exponent overflow, set infinity
             exponent16 = FLOAT16_EXPONENT_INFINITY_NAN
+            significand16 = 0
         elif signed_exponent16 <= 0:
             # exponent underflow
             if signed_exponent16 <= -FLOAT16_SIGNIFICAND_NUM_BITS:
-- 
2.43.0


From 8e4950a8130c9ea7c9e2f1f8a3d337c77ba8b9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:34 +0000
Subject: [PATCH 24/89] fix: NaN without high significand bits became infinity
 when converted to float16

---
 compiler/extensions/cpp/runtime/src/zserio/FloatUtil.cpp      | 4 ++++
 .../extensions/java/runtime/src/zserio/runtime/FloatUtil.java | 2 ++
 compiler/extensions/python/runtime/src/zserio/float.py        | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/FloatUtil.cpp b/compiler/extensions/cpp/runtime/src/zserio/FloatUtil.cpp
index 64a93ce..7cfa203 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/FloatUtil.cpp
+++ b/compiler/extensions/cpp/runtime/src/zserio/FloatUtil.cpp
@@ -108,6 +108,10 @@ uint16_t convertFloatToUInt16(float float32)
     {
         // infinity or NaN
         exponent16 = FLOAT16_EXPONENT_INFINITY_NAN;
+        if (significand32 != 0 && significand16 == 0)
+        {
+            significand16 = 1; // NaN must not become infinity
+        }
     }
     else
     {
diff --git a/compiler/extensions/java/runtime/src/zserio/runtime/FloatUtil.java b/compiler/extensions/java/runtime/src/zserio/runtime/FloatUtil.java
index e3ef2bc..c1be744 100644
--- a/compiler/extensions/java/runtime/src/zserio/runtime/FloatUtil.java
+++ b/compiler/extensions/java/runtime/src/zserio/runtime/FloatUtil.java
@@ -110,6 +110,8 @@ public final class FloatUtil
         {
             // infinity or NaN
             exponent16 = FLOAT16_EXPONENT_INFINITY_NAN;
+            if (significand32 != 0 && significand16 == 0)
+                significand16 = 1; // NaN must not become infinity
         }
         else
         {
diff --git a/compiler/extensions/python/runtime/src/zserio/float.py b/compiler/extensions/python/runtime/src/zserio/float.py
index 9a4d05f..fff058e 100644
--- a/compiler/extensions/python/runtime/src/zserio/float.py
+++ b/compiler/extensions/python/runtime/src/zserio/float.py
@@ -86,6 +86,8 @@ def float_to_uint16(float64: float) -> int:
     elif exponent32 == FLOAT32_EXPONENT_INFINITY_NAN:
         # infinity or NaN
         exponent16 = FLOAT16_EXPONENT_INFINITY_NAN
+        if significand32 != 0 and significand16 == 0:
+            significand16 = 1  # NaN must not become infinity
     else:
         # normal number
         signed_exponent16 = exponent32 - FLOAT32_EXPONENT_BIAS + FLOAT16_EXPONENT_BIAS
-- 
2.43.0


From 4500cd8d1c507b6df0c0bb47489669ce05979055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:58 +0000
Subject: [PATCH 25/89] fix: C++ JSON encoder lost precision of floating point
 values

---
 .../cpp/runtime/src/zserio/JsonEncoder.cpp    | 30 ++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/JsonEncoder.cpp b/compiler/extensions/cpp/runtime/src/zserio/JsonEncoder.cpp
index 61580e3..ae8bfef 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/JsonEncoder.cpp
+++ b/compiler/extensions/cpp/runtime/src/zserio/JsonEncoder.cpp
@@ -1,5 +1,7 @@
 #include <array>
 #include <cmath>
+#include <cstdio>
+#include <cstdlib>
 #include <iomanip>
 #include <string>
 
@@ -8,6 +10,32 @@
 namespace zserio
 {
 
+namespace
+{
+
+// returns the smallest precision which is enough to decode exactly the same value
+int getFloatingPointPrecision(double value)
+{
+    const int minPrecision = 15;
+    const int maxPrecision = 17;
+
+    int precision = minPrecision;
+    while (precision < maxPrecision)
+    {
+        std::array<char, 32> buffer = {};
+        (void)std::snprintf(buffer.data(), buffer.size(), "%.*g", precision, value);
+        if (std::strtod(buffer.data(), nullptr) == value)
+        {
+            break;
+        }
+        precision++;
+    }
+
+    return precision;
+}
+
+} // namespace
+
 void JsonEncoder::encodeNull(std::ostream& stream)
 {
     stream << "null";
@@ -43,7 +71,7 @@ void JsonEncoder::encodeFloatingPoint(std::ostream& stream, double value)
         }
         else
         {
-            stream << std::setprecision(15) << value << std::defaultfloat;
+            stream << std::setprecision(getFloatingPointPrecision(value)) << value << std::defaultfloat;
         }
     }
 }
-- 
2.43.0


From 16f76a2ea1b35968bff3237ce7fdf9f83d006999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:58 +0000
Subject: [PATCH 26/89] fix: C++ JSON decoder pushed a single byte for escapes
 \u0080 to \u00ff

---
 .../cpp/runtime/src/zserio/JsonDecoder.h           | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/JsonDecoder.h b/compiler/extensions/cpp/runtime/src/zserio/JsonDecoder.h
index 9e9615e..3e3223f 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/JsonDecoder.h
+++ b/compiler/extensions/cpp/runtime/src/zserio/JsonDecoder.h
@@ -299,8 +299,18 @@ bool BasicJsonDecoder<ALLOC>::decodeUnicodeEscape(
 
     const uint32_t characterInt = (static_cast<uint32_t>(hex1) << 4U) | static_cast<uint32_t>(hex2);
     using char_traits = std::char_traits<char>;
-    const char character = char_traits::to_char_type(static_cast<char_traits::int_type>(characterInt));
-    value.push_back(character);
+    if (characterInt <= 0x7FU)
+    {
+        value.push_back(char_traits::to_char_type(static_cast<char_traits::int_type>(characterInt)));
+    }
+    else
+    {
+        // strings are encoded in UTF-8
+        const uint32_t firstByte = 0xC0U | (characterInt >> 6U);
+        const uint32_t secondByte = 0x80U | (characterInt & 0x3FU);
+        value.push_back(char_traits::to_char_type(static_cast<char_traits::int_type>(firstByte)));
+        value.push_back(char_traits::to_char_type(static_cast<char_traits::int_type>(secondByte)));
+    }
 
     return true;
 }
-- 
2.43.0


From de232ffbb6f247bbcb7be342ec6ede80e3e5ff7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:58 +0000
Subject: [PATCH 27/89] fix: Java JSON decoder failed with
 IllegalArgumentException for \u escapes with a sign

---
 .../src/zserio/runtime/json/JsonDecoder.java      | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/compiler/extensions/java/runtime/src/zserio/runtime/json/JsonDecoder.java b/compiler/extensions/java/runtime/src/zserio/runtime/json/JsonDecoder.java
index 1286201..793f5a4 100644
--- a/compiler/extensions/java/runtime/src/zserio/runtime/json/JsonDecoder.java
+++ b/compiler/extensions/java/runtime/src/zserio/runtime/json/JsonDecoder.java
@@ -205,14 +205,17 @@ class JsonDecoder
 
     private static String decodeUnicodeEscape(String content)
     {
-        try
+        int codePoint = 0;
+        for (int i = 0; i < content.length(); ++i)
         {
-            return new String(Character.toChars(Integer.parseInt(content, 16)));
-        }
-        catch (NumberFormatException excpt)
-        {
-            return null;
+            final char hexChar = content.charAt(i);
+            final int hexDigit = (hexChar < 0x80) ? Character.digit(hexChar, 16) : -1;
+            if (hexDigit < 0)
+                return null;
+            codePoint = (codePoint << 4) | hexDigit;
         }
+
+        return new String(Character.toChars(codePoint));
     }
 
     private static Result decodeNumber(String content, int pos)
-- 
2.43.0


From 0f87b54caaf2391cdab280f592135a4f5598246c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:58 +0000
Subject: [PATCH 28/89] fix: Java JSON decoder accepted digits outside ASCII as
 numbers

---
 .../java/runtime/src/zserio/runtime/json/JsonDecoder.java       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/extensions/java/runtime/src/zserio/runtime/json/JsonDecoder.java b/compiler/extensions/java/runtime/src/zserio/runtime/json/JsonDecoder.java
index 793f5a4..9540844 100644
--- a/compiler/extensions/java/runtime/src/zserio/runtime/json/JsonDecoder.java
+++ b/compiler/extensions/java/runtime/src/zserio/runtime/json/JsonDecoder.java
@@ -288,7 +288,7 @@ class JsonDecoder
                 }
             }
 
-            if (Character.isDigit(nextChar))
+            if (nextChar >= '0' && nextChar <= '9')
             {
                 endOfNumberPos++;
                 continue;
-- 
2.43.0


From 4a0e05c80fceac532809d2763980243ee88aaa4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:58 +0000
Subject: [PATCH 29/89] fix: Python JSON decoder split characters escaped as
 surrogate pairs

---
 compiler/extensions/python/runtime/src/zserio/json.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/compiler/extensions/python/runtime/src/zserio/json.py b/compiler/extensions/python/runtime/src/zserio/json.py
index 78f94f4..2ee0aed 100644
--- a/compiler/extensions/python/runtime/src/zserio/json.py
+++ b/compiler/extensions/python/runtime/src/zserio/json.py
@@ -688,6 +688,11 @@ class JsonDecoder:
                     sub_content = content[end_of_string_pos - unicode_escape_len - 2 : end_of_string_pos]
                     decoded_unicode = JsonDecoder._decode_unicode_escape(sub_content)
                     if decoded_unicode is not None:
+                        if "\ud800" <= decoded_string[-1:] <= "\udbff" and "\udc00" <= decoded_unicode <= "\udfff":
+                            # surrogate pair encodes one character
+                            pair = decoded_string[-1] + decoded_unicode
+                            decoded_unicode = pair.encode("utf-16", "surrogatepass").decode("utf-16")
+                            decoded_string = decoded_string[:-1]
                         decoded_string += decoded_unicode
                     else:
                         return JsonDecoder.Result.from_failure(end_of_string_pos - pos)
-- 
2.43.0


From 252d3c2fcc20e01ceef4594d114fa514ee8033a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:58 +0000
Subject: [PATCH 30/89] fix: Python JSON decoder accepted digits outside ASCII
 as numbers

---
 compiler/extensions/python/runtime/src/zserio/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/extensions/python/runtime/src/zserio/json.py b/compiler/extensions/python/runtime/src/zserio/json.py
index 2ee0aed..4267981 100644
--- a/compiler/extensions/python/runtime/src/zserio/json.py
+++ b/compiler/extensions/python/runtime/src/zserio/json.py
@@ -747,7 +747,7 @@ class JsonDecoder:
                     end_of_number_pos += 1
                     continue
 
-            if next_char.isdigit():
+            if "0" <= next_char <= "9":
                 end_of_number_pos += 1
                 continue
 
-- 
2.43.0


From 2adea6761b4d850cc9a3c46f37394636333c6ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:06 +0000
Subject: [PATCH 31/89] fix: Python JSON reader accepted booleans as integers

---
 .../python/runtime/src/zserio/creator.py      |  9 ++++++--
 .../python/runtime/src/zserio/json.py         | 22 ++++++++++++++-----
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/compiler/extensions/python/runtime/src/zserio/creator.py b/compiler/extensions/python/runtime/src/zserio/creator.py
index 5be66c3..8b3ca5a 100644
--- a/compiler/extensions/python/runtime/src/zserio/creator.py
+++ b/compiler/extensions/python/runtime/src/zserio/creator.py
@@ -176,7 +176,7 @@ class ZserioTreeCreator:
                     "ZserioTreeCreator: Expecting array in field " f"'{member_info.schema_name}'!"
                 )
 
-            if not isinstance(value, member_info.type_info.py_type):
+            if not ZserioTreeCreator._is_instance(value, member_info.type_info.py_type):
                 raise PythonRuntimeException(
                     f"ZserioTreeCreator: Unexpected value type '{type(value)}', "
                     f"expecting '{member_info.type_info.py_type}'!"
@@ -261,7 +261,7 @@ class ZserioTreeCreator:
             )
 
         element_type_info = self._member_info_stack[-1].type_info
-        if value is not None and not isinstance(value, element_type_info.py_type):
+        if value is not None and not ZserioTreeCreator._is_instance(value, element_type_info.py_type):
             raise PythonRuntimeException(
                 f"ZserioTreeCreator: Unexpected value type '{type(value)}', expecting "
                 f"'{element_type_info.py_type}'!"
@@ -286,6 +286,11 @@ class ZserioTreeCreator:
     def _get_type_info(self) -> typing.Union[TypeInfo, RecursiveTypeInfo]:
         return self._member_info_stack[-1].type_info if self._member_info_stack else self._root_type_info
 
+    @staticmethod
+    def _is_instance(value: typing.Any, py_type: typing.Type) -> bool:
+        # bool is a subclass of int but it is not a valid value of integral types
+        return isinstance(value, py_type) and (py_type is bool or not isinstance(value, bool))
+
     @staticmethod
     def _find_member_info(type_info: typing.Union[TypeInfo, RecursiveTypeInfo], name: str) -> MemberInfo:
         members = type_info.attributes[TypeAttribute.FIELDS]
diff --git a/compiler/extensions/python/runtime/src/zserio/json.py b/compiler/extensions/python/runtime/src/zserio/json.py
index 4267981..f197cfb 100644
--- a/compiler/extensions/python/runtime/src/zserio/json.py
+++ b/compiler/extensions/python/runtime/src/zserio/json.py
@@ -962,6 +962,11 @@ class JsonReader:
 
         return self._creator_adapter.get()
 
+    @staticmethod
+    def _is_integer(value: typing.Any) -> bool:
+        # bool is a subclass of int but it is not a JSON number
+        return isinstance(value, int) and not isinstance(value, bool)
+
     class _ObjectValueAdapter(JsonParser.Observer):
         """
         Adapter for values which are encoded as Json objects.
@@ -1034,11 +1039,12 @@ class JsonReader:
             if (
                 self._state == JsonReader._BitBufferAdapter._State.VISIT_VALUE_BUFFER
                 and self._buffer is not None
-                and isinstance(value, int)
+                and JsonReader._is_integer(value)
             ):
                 self._buffer.append(value)
-            elif self._state == JsonReader._BitBufferAdapter._State.VISIT_VALUE_BITSIZE and isinstance(
-                value, int
+            elif (
+                self._state == JsonReader._BitBufferAdapter._State.VISIT_VALUE_BITSIZE
+                and JsonReader._is_integer(value)
             ):
                 self._bit_size = value
                 self._state = JsonReader._BitBufferAdapter._State.VISIT_KEY
@@ -1108,7 +1114,7 @@ class JsonReader:
             if (
                 self._state == JsonReader._BytesAdapter._State.VISIT_VALUE_BUFFER
                 and self._buffer is not None
-                and isinstance(value, int)
+                and JsonReader._is_integer(value)
             ):
                 self._buffer.append(value)
             else:
@@ -1270,16 +1276,20 @@ class JsonReader:
             if TypeAttribute.ENUM_ITEMS in type_info.attributes:
                 if isinstance(value, str):
                     return JsonReader._CreatorAdapter._enum_from_string(value, type_info)
-                else:
+                elif JsonReader._is_integer(value):
                     return type_info.py_type(value)
             elif TypeAttribute.BITMASK_VALUES in type_info.attributes:
                 if isinstance(value, str):
                     return JsonReader._CreatorAdapter._bitmask_from_string(value, type_info)
-                else:
+                elif JsonReader._is_integer(value):
                     return type_info.py_type.from_value(value)
             else:
                 return value
 
+            raise PythonRuntimeException(
+                f"JsonReader: Cannot create '{type_info.schema_name}' from value '{value}'!"
+            )
+
         @staticmethod
         def _enum_from_string(
             string_value: str, type_info: typing.Union[TypeInfo, RecursiveTypeInfo]
-- 
2.43.0


From ab04bae031b65394681ee2862cbd46af080a9e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:20 +0000
Subject: [PATCH 32/89] fix: JSON readers failed on bitmask strings consisting
 of digits only

---
 .../java/runtime/src/zserio/runtime/json/JsonReader.java       | 3 ++-
 compiler/extensions/python/runtime/src/zserio/json.py          | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/compiler/extensions/java/runtime/src/zserio/runtime/json/JsonReader.java b/compiler/extensions/java/runtime/src/zserio/runtime/json/JsonReader.java
index 450748b..a7ef750 100644
--- a/compiler/extensions/java/runtime/src/zserio/runtime/json/JsonReader.java
+++ b/compiler/extensions/java/runtime/src/zserio/runtime/json/JsonReader.java
@@ -703,7 +703,8 @@ public final class JsonReader implements AutoCloseable
         private static BigInteger parseBitmaskNumericStringValue(String stringValue)
         {
             int numberLen = 1;
-            while (stringValue.charAt(numberLen) >= '0' && stringValue.charAt(numberLen) <= '9')
+            while (numberLen < stringValue.length() && stringValue.charAt(numberLen) >= '0' &&
+                    stringValue.charAt(numberLen) <= '9')
                 numberLen++;
             try
             {
diff --git a/compiler/extensions/python/runtime/src/zserio/json.py b/compiler/extensions/python/runtime/src/zserio/json.py
index f197cfb..99befe9 100644
--- a/compiler/extensions/python/runtime/src/zserio/json.py
+++ b/compiler/extensions/python/runtime/src/zserio/json.py
@@ -1360,7 +1360,7 @@ class JsonReader:
         @staticmethod
         def _parse_bitmask_numeric_string_value(string_value: str):
             number_len = 1
-            while string_value[number_len] >= "0" and string_value[number_len] <= "9":
+            while number_len < len(string_value) and "0" <= string_value[number_len] <= "9":
                 number_len += 1
 
             return int(string_value[0:number_len])
-- 
2.43.0


From deb8bd5e098ea4862a84e8aff73777fc5f7c19cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:38 +0000
Subject: [PATCH 33/89] fix: Python JSON reader and writer failed on subtypes
 of extern and bytes

---
 .../extensions/python/runtime/src/zserio/json.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/compiler/extensions/python/runtime/src/zserio/json.py b/compiler/extensions/python/runtime/src/zserio/json.py
index 99befe9..787f418 100644
--- a/compiler/extensions/python/runtime/src/zserio/json.py
+++ b/compiler/extensions/python/runtime/src/zserio/json.py
@@ -192,9 +192,9 @@ class JsonWriter(WalkObserver):
             return
 
         type_info = member_info.type_info
-        if type_info.schema_name == "extern":
+        if type_info.py_type is BitBuffer:
             self._write_bitbuffer(value)
-        elif type_info.schema_name == "bytes":
+        elif type_info.py_type is bytearray:
             self._write_bytes(value)
         else:
             if TypeAttribute.ENUM_ITEMS in type_info.attributes:
@@ -1175,18 +1175,18 @@ class JsonReader:
                     self._creator.begin_root()
                 else:
                     if self._key_stack[-1]:
-                        schema_type = self._creator.get_field_type(self._key_stack[-1]).schema_name
-                        if schema_type == "extern":
+                        py_type = self._creator.get_field_type(self._key_stack[-1]).py_type
+                        if py_type is BitBuffer:
                             self._object_value_adapter = JsonReader._BitBufferAdapter()
-                        elif schema_type == "bytes":
+                        elif py_type is bytearray:
                             self._object_value_adapter = JsonReader._BytesAdapter()
                         else:
                             self._creator.begin_compound(self._key_stack[-1])
                     else:
-                        schema_type = self._creator.get_element_type().schema_name
-                        if schema_type == "extern":
+                        py_type = self._creator.get_element_type().py_type
+                        if py_type is BitBuffer:
                             self._object_value_adapter = JsonReader._BitBufferAdapter()
-                        elif schema_type == "bytes":
+                        elif py_type is bytearray:
                             self._object_value_adapter = JsonReader._BytesAdapter()
                         else:
                             self._creator.begin_compound_element()
-- 
2.43.0


From bb9adbf3f3545c2062b55d6091915083d7d54c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:03 +0000
Subject: [PATCH 34/89] fix: wrong bounds of negated and shifted integer
 expressions broke dynamic bit fields and crashed the compiler

---
 .../zserio/ast/ExpressionIntegerValue.java    | 37 ++++++++++++++-----
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/compiler/core/src/zserio/ast/ExpressionIntegerValue.java b/compiler/core/src/zserio/ast/ExpressionIntegerValue.java
index 94adad7..ecce955 100644
--- a/compiler/core/src/zserio/ast/ExpressionIntegerValue.java
+++ b/compiler/core/src/zserio/ast/ExpressionIntegerValue.java
@@ -138,7 +138,7 @@ final class ExpressionIntegerValue
             return new ExpressionIntegerValue(value.negate());
 
         if (lowerBound != null && upperBound != null)
-            return new ExpressionIntegerValue(lowerBound.negate(), upperBound.negate(), needsBigInteger);
+            return new ExpressionIntegerValue(upperBound.negate(), lowerBound.negate(), needsBigInteger);
 
         return new ExpressionIntegerValue(needsBigInteger);
     }
@@ -308,11 +308,15 @@ final class ExpressionIntegerValue
         if (value != null && operand.value != null)
             return new ExpressionIntegerValue(value.shiftLeft(operand.value.intValue()), needsBigInteger);
 
-        if (lowerBound != null && upperBound != null && operand.lowerBound != null &&
-                operand.upperBound != null)
+        if (lowerBound != null && upperBound != null && operand.isValidShift())
         {
-            return new ExpressionIntegerValue(lowerBound.shiftLeft(operand.lowerBound.intValue()),
-                    upperBound.shiftLeft(operand.upperBound.intValue()), needsBigInteger);
+            final MinMaxValue minMaxValue = new MinMaxValue();
+            minMaxValue.add(lowerBound.shiftLeft(operand.lowerBound.intValue()));
+            minMaxValue.add(lowerBound.shiftLeft(operand.upperBound.intValue()));
+            minMaxValue.add(upperBound.shiftLeft(operand.lowerBound.intValue()));
+            minMaxValue.add(upperBound.shiftLeft(operand.upperBound.intValue()));
+
+            return new ExpressionIntegerValue(minMaxValue.getMin(), minMaxValue.getMax(), needsBigInteger);
         }
 
         return new ExpressionIntegerValue(needsBigInteger);
@@ -330,11 +334,15 @@ final class ExpressionIntegerValue
         if (value != null && operand.value != null)
             return new ExpressionIntegerValue(value.shiftRight(operand.value.intValue()), needsBigInteger);
 
-        if (lowerBound != null && upperBound != null && operand.lowerBound != null &&
-                operand.upperBound != null)
+        if (lowerBound != null && upperBound != null && operand.isValidShift())
         {
-            return new ExpressionIntegerValue(lowerBound.shiftRight(operand.lowerBound.intValue()),
-                    upperBound.shiftRight(operand.upperBound.intValue()), needsBigInteger);
+            final MinMaxValue minMaxValue = new MinMaxValue();
+            minMaxValue.add(lowerBound.shiftRight(operand.lowerBound.intValue()));
+            minMaxValue.add(lowerBound.shiftRight(operand.upperBound.intValue()));
+            minMaxValue.add(upperBound.shiftRight(operand.lowerBound.intValue()));
+            minMaxValue.add(upperBound.shiftRight(operand.upperBound.intValue()));
+
+            return new ExpressionIntegerValue(minMaxValue.getMin(), minMaxValue.getMax(), needsBigInteger);
         }
 
         return new ExpressionIntegerValue(needsBigInteger);
@@ -490,6 +498,17 @@ final class ExpressionIntegerValue
         this.needsBigInteger = needsBigInteger;
     }
 
+    /**
+     * Checks if all values within the bounds can be used as a shift of a 64-bit integer.
+     *
+     * @return True if the bounds are known and within the range [0, 63].
+     */
+    private boolean isValidShift()
+    {
+        return lowerBound != null && upperBound != null && lowerBound.signum() >= 0 &&
+                upperBound.compareTo(BigInteger.valueOf(Long.SIZE)) < 0;
+    }
+
     // TODO This is redundant with runtime library but we don't have available runtime library in Zserio core.
     private BigInteger getNumBits(BigInteger value)
     {
-- 
2.43.0


From 0a8f97743078bd6b1f544cf595dc4a537b3e9e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:52 +0000
Subject: [PATCH 35/89] fix: compiler folded numbits(0) to 1 instead of 0

---
 compiler/core/src/zserio/ast/ExpressionIntegerValue.java | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/compiler/core/src/zserio/ast/ExpressionIntegerValue.java b/compiler/core/src/zserio/ast/ExpressionIntegerValue.java
index ecce955..26393d5 100644
--- a/compiler/core/src/zserio/ast/ExpressionIntegerValue.java
+++ b/compiler/core/src/zserio/ast/ExpressionIntegerValue.java
@@ -512,6 +512,9 @@ final class ExpressionIntegerValue
     // TODO This is redundant with runtime library but we don't have available runtime library in Zserio core.
     private BigInteger getNumBits(BigInteger value)
     {
+        if (value.signum() == 0)
+            return BigInteger.ZERO;
+
         if (value.doubleValue() < 2.0)
             return BigInteger.ONE;
 
-- 
2.43.0


From a433092e779e9f5561fafc1b2b68cb7ca9d220d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:31 +0000
Subject: [PATCH 36/89] fix: compiler crashed with NullPointerException on enum
 and bitmask values which are not constant

---
 compiler/core/src/zserio/ast/BitmaskValue.java | 3 +++
 compiler/core/src/zserio/ast/EnumItem.java     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/compiler/core/src/zserio/ast/BitmaskValue.java b/compiler/core/src/zserio/ast/BitmaskValue.java
index ba3eb2f..e6d454c 100644
--- a/compiler/core/src/zserio/ast/BitmaskValue.java
+++ b/compiler/core/src/zserio/ast/BitmaskValue.java
@@ -94,6 +94,9 @@ public final class BitmaskValue extends DocumentableAstNode implements ScopeSymb
                             valueExpression, "Bitmask value '" + getName() + "' is not an integral type!");
 
                 value = valueExpression.getIntegerValue();
+                if (value == null)
+                    throw new ParserException(
+                            valueExpression, "Bitmask value '" + getName() + "' is not a constant!");
                 if (value.compareTo(BigInteger.ZERO) == -1)
                     throw new ParserException(valueExpression,
                             "Bitmask value '" + getName() + "(" + value + ") cannot be negative!");
diff --git a/compiler/core/src/zserio/ast/EnumItem.java b/compiler/core/src/zserio/ast/EnumItem.java
index df7e7c9..4672d25 100644
--- a/compiler/core/src/zserio/ast/EnumItem.java
+++ b/compiler/core/src/zserio/ast/EnumItem.java
@@ -118,6 +118,9 @@ public final class EnumItem extends DocumentableAstNode implements ScopeSymbol
                     throw new ParserException(
                             valueExpression, "Enumeration item '" + getName() + "' has non-integer value!");
                 value = valueExpression.getIntegerValue();
+                if (value == null)
+                    throw new ParserException(
+                            valueExpression, "Enumeration item '" + getName() + "' has non-constant value!");
             }
 
             isEvaluated = true;
-- 
2.43.0


From 0eaabf8e67c6b2cd22477060d01737944397d908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:46 +0000
Subject: [PATCH 37/89] fix: C++ choice over an enumeration with a removed item
 did not compile

---
 .../src/zserio/extension/cpp/ChoiceEmitterTemplateData.java  | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/compiler/extensions/cpp/src/zserio/extension/cpp/ChoiceEmitterTemplateData.java b/compiler/extensions/cpp/src/zserio/extension/cpp/ChoiceEmitterTemplateData.java
index 42a44f5..44ca7f7 100644
--- a/compiler/extensions/cpp/src/zserio/extension/cpp/ChoiceEmitterTemplateData.java
+++ b/compiler/extensions/cpp/src/zserio/extension/cpp/ChoiceEmitterTemplateData.java
@@ -75,8 +75,9 @@ public final class ChoiceEmitterTemplateData extends CompoundTypeTemplateData
             final EnumType selEnumType = (EnumType)choiceType.getSelectorExpression().getExprZserioType();
             for (EnumItem item : choiceType.getUnhandledEnumItems())
             {
-                final String fullName = CppFullNameFormatter.getFullName(
-                        selEnumType.getPackage().getPackageName(), selEnumType.getName(), item.getName());
+                final String fullName =
+                        CppFullNameFormatter.getFullName(selEnumType.getPackage().getPackageName(),
+                                selEnumType.getName(), AccessorNameFormatter.getEnumeratorName(item));
                 this.unhandledEnumItems.add(fullName);
             }
         }
-- 
2.43.0


From b9985770d0372e766afae31e298e68b2108944ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:34 +0000
Subject: [PATCH 38/89] fix: Python objects shared one default bytearray for
 bytes fields

---
 compiler/extensions/python/freemarker/Structure.py.ftl | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/compiler/extensions/python/freemarker/Structure.py.ftl b/compiler/extensions/python/freemarker/Structure.py.ftl
index 6138e3c..6a7c1d4 100644
--- a/compiler/extensions/python/freemarker/Structure.py.ftl
+++ b/compiler/extensions/python/freemarker/Structure.py.ftl
@@ -25,7 +25,7 @@ class ${name}:
     <#elseif field.optional??>
         None<#t>
     <#else>
-        <#if field.typeInfo.isBuiltin>
+        <#if field.typeInfo.isBuiltin && !field.typeInfo.isBytes>
         ${field.typeInfo.typeFullName}()<#t>
         <#else>
         None<#t>
@@ -58,7 +58,12 @@ class ${name}:
         self._num_extended_fields = ${fieldList?size}
     </#if>
     <#list fieldList as field>
+        <#if field.typeInfo.isBytes && !field.array?? && !field.optional??>
+        <#-- bytes are mutable, the default value must not be shared by all objects -->
+        self.<@field_member_name field/> = bytearray() if <@field_argument_name field/> is None else <@field_argument_name field/>
+        <#else>
         <@compound_setter_field field, 2/>
+        </#if>
     </#list>
 
 </#if>
-- 
2.43.0


From 6ab0b244d7bf73ae7e9ab5207ab3a6f4bfb0850e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:12 +0000
Subject: [PATCH 39/89] fix: compiler overflowed the stack on subtype and
 instantiate cycles not containing the first type

---
 compiler/core/src/zserio/ast/ZserioAstTypeResolver.java | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/compiler/core/src/zserio/ast/ZserioAstTypeResolver.java b/compiler/core/src/zserio/ast/ZserioAstTypeResolver.java
index 6d4e413..be6bd42 100644
--- a/compiler/core/src/zserio/ast/ZserioAstTypeResolver.java
+++ b/compiler/core/src/zserio/ast/ZserioAstTypeResolver.java
@@ -90,11 +90,12 @@ public final class ZserioAstTypeResolver extends ZserioAstWalker
 
     private <T extends ZserioType> void checkCycle(List<T> typesOnStack, T type, String typeName)
     {
-        if (!typesOnStack.isEmpty() && typesOnStack.get(0) == type)
+        final int firstIndex = typesOnStack.indexOf(type);
+        if (firstIndex >= 0)
         {
             final ParserStackedException stackedException = new ParserStackedException(type.getLocation(),
                     "Cyclic dependency detected in " + typeName + " '" + type.getName() + "'!");
-            for (int i = 1; i < typesOnStack.size(); ++i)
+            for (int i = firstIndex + 1; i < typesOnStack.size(); ++i)
             {
                 final T typeOnStack = typesOnStack.get(i);
                 stackedException.pushMessage(typeOnStack.getLocation(),
-- 
2.43.0


From 8054c34aa5fb50dae0c596b9397aa0a5a83c3a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:12 +0000
Subject: [PATCH 40/89] fix: service and pubsub used as a type were accepted by
 the compiler and refused by generators without position

---
 compiler/core/src/zserio/ast/TypeReference.java | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/compiler/core/src/zserio/ast/TypeReference.java b/compiler/core/src/zserio/ast/TypeReference.java
index 833dfc8..13439de 100644
--- a/compiler/core/src/zserio/ast/TypeReference.java
+++ b/compiler/core/src/zserio/ast/TypeReference.java
@@ -157,6 +157,14 @@ public final class TypeReference extends AstNodeBase
             throw new ParserException(
                     this, "Invalid usage of SQL database '" + symbol.getName() + "' as a type!");
         }
+        if (symbol instanceof ServiceType)
+        {
+            throw new ParserException(this, "Invalid usage of service '" + symbol.getName() + "' as a type!");
+        }
+        if (symbol instanceof PubsubType)
+        {
+            throw new ParserException(this, "Invalid usage of pubsub '" + symbol.getName() + "' as a type!");
+        }
         if (symbol instanceof TemplatableType)
         {
             final TemplatableType template = (TemplatableType)symbol;
-- 
2.43.0


From 509f503b63040222250100707a01e5e36fdf8801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:12 +0000
Subject: [PATCH 41/89] fix: compiler crashed on constant division by zero and
 on huge constant shifts

---
 compiler/core/src/zserio/ast/Expression.java | 23 ++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/compiler/core/src/zserio/ast/Expression.java b/compiler/core/src/zserio/ast/Expression.java
index d0e5066..fe94d10 100644
--- a/compiler/core/src/zserio/ast/Expression.java
+++ b/compiler/core/src/zserio/ast/Expression.java
@@ -1426,11 +1426,13 @@ public final class Expression extends AstNodeBase
                     break;
 
                 case ZserioParser.DIVIDE:
+                    checkZeroDivisor();
                     expressionIntegerValue =
                             operand1.expressionIntegerValue.divide(operand2.expressionIntegerValue);
                     break;
 
                 case ZserioParser.MODULO:
+                    checkZeroDivisor();
                     expressionIntegerValue =
                             operand1.expressionIntegerValue.remainder(operand2.expressionIntegerValue);
                     break;
@@ -1448,6 +1450,12 @@ public final class Expression extends AstNodeBase
         }
     }
 
+    private void checkZeroDivisor()
+    {
+        if (BigInteger.ZERO.equals(operand2.getIntegerValue()))
+            throw new ParserException(operand2, "Division by zero!");
+    }
+
     private void evaluateBitExpression()
     {
         if (operand1.expressionType == ExpressionType.TEMPLATE_PARAMETER_TYPE ||
@@ -1469,10 +1477,12 @@ public final class Expression extends AstNodeBase
         switch (type)
         {
         case ZserioParser.LSHIFT:
+            checkShiftOperand();
             expressionIntegerValue = operand1.expressionIntegerValue.shiftLeft(operand2.expressionIntegerValue);
             break;
 
         case ZserioParser.RSHIFT:
+            checkShiftOperand();
             expressionIntegerValue =
                     operand1.expressionIntegerValue.shiftRight(operand2.expressionIntegerValue);
             break;
@@ -1504,6 +1514,17 @@ public final class Expression extends AstNodeBase
         zserioType = operand1.zserioType;
     }
 
+    private void checkShiftOperand()
+    {
+        final BigInteger shiftValue = operand2.getIntegerValue();
+        if (shiftValue != null && shiftValue.abs().compareTo(MAX_SHIFT_VALUE) > 0)
+        {
+            throw new ParserException(operand2,
+                    "Shift operand '" + shiftValue + "' exceeds the maximum shift value (" + MAX_SHIFT_VALUE +
+                            ")!");
+        }
+    }
+
     private void evaluateRelationalExpression()
     {
         expressionType = ExpressionType.BOOLEAN;
@@ -1959,6 +1980,8 @@ public final class Expression extends AstNodeBase
         return pos;
     }
 
+    private static final BigInteger MAX_SHIFT_VALUE = BigInteger.valueOf(1024);
+
     private final Package pkg;
 
     private final int type;
-- 
2.43.0


From d2fd055968380fca669505440cdd41fcf82e98cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:12 +0000
Subject: [PATCH 42/89] fix: check of indirect recursion did not terminate when
 the cycle did not contain the checked type

---
 .../core/src/zserio/ast/CompoundType.java     | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/compiler/core/src/zserio/ast/CompoundType.java b/compiler/core/src/zserio/ast/CompoundType.java
index d4d3b23..56eb806 100644
--- a/compiler/core/src/zserio/ast/CompoundType.java
+++ b/compiler/core/src/zserio/ast/CompoundType.java
@@ -1,8 +1,11 @@
 package zserio.ast;
 
 import java.math.BigInteger;
+import java.util.ArrayList;
 import java.util.Collections;
+import java.util.HashSet;
 import java.util.List;
+import java.util.Set;
 
 /**
  * AST abstract node for all Compound types.
@@ -160,7 +163,7 @@ public abstract class CompoundType extends TemplatableType
     void check()
     {
         checkDirectRecursion();
-        checkIndirectRecursion(this, this);
+        checkIndirectRecursion(this, new ArrayList<CompoundType>(), new HashSet<CompoundType>());
     }
 
     /**
@@ -459,8 +462,10 @@ public abstract class CompoundType extends TemplatableType
         }
     }
 
-    private static void checkIndirectRecursion(CompoundType outer, CompoundType inner)
+    private static void checkIndirectRecursion(
+            CompoundType inner, List<CompoundType> outers, Set<CompoundType> checkedTypes)
     {
+        outers.add(inner);
         for (Field field : inner.fields)
         {
             TypeInstantiation typeInstantiation = field.getTypeInstantiation();
@@ -473,15 +478,17 @@ public abstract class CompoundType extends TemplatableType
             if (fieldBaseType instanceof CompoundType)
             {
                 final CompoundType childCompoundType = (CompoundType)fieldBaseType;
-                if (outer != inner && outer == childCompoundType)
+                if (inner != childCompoundType && outers.contains(childCompoundType))
                     throw new ParserException(field,
-                            "Indirect recursion between '" + outer.getName() + "' and '" + inner.getName() +
-                                    "'!");
+                            "Indirect recursion between '" + childCompoundType.getName() + "' and '" +
+                                    inner.getName() + "'!");
 
-                if (inner != childCompoundType)
-                    checkIndirectRecursion(outer, childCompoundType);
+                if (inner != childCompoundType && !checkedTypes.contains(childCompoundType))
+                    checkIndirectRecursion(childCompoundType, outers, checkedTypes);
             }
         }
+        outers.remove(outers.size() - 1);
+        checkedTypes.add(inner);
     }
 
     private final Scope scope = new Scope(this);
-- 
2.43.0


From 7208da4da79c5045529090c3a3050a0e76ab1a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:12 +0000
Subject: [PATCH 43/89] fix: SQL table used as a parameter type crashed the
 Python generator

---
 compiler/core/src/zserio/ast/CompoundType.java | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/compiler/core/src/zserio/ast/CompoundType.java b/compiler/core/src/zserio/ast/CompoundType.java
index 56eb806..d547dec 100644
--- a/compiler/core/src/zserio/ast/CompoundType.java
+++ b/compiler/core/src/zserio/ast/CompoundType.java
@@ -199,6 +199,13 @@ public abstract class CompoundType extends TemplatableType
      */
     protected void checkSqlTableFields()
     {
+        for (Parameter parameter : typeParameters)
+        {
+            if (parameter.getTypeReference().getBaseTypeReference().getType() instanceof SqlTableType)
+                throw new ParserException(
+                        parameter, "Parameter '" + parameter.getName() + "' cannot be a sql table!");
+        }
+
         for (Field field : fields)
         {
             TypeInstantiation typeInstantiation = field.getTypeInstantiation();
-- 
2.43.0


From 9dad836591b27a9f947c1ca52b57da9de2dbf79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:12 +0000
Subject: [PATCH 44/89] fix: constant length of dynamic bit field was checked
 after truncation to 32 bits

---
 .../core/src/zserio/ast/DynamicBitFieldInstantiation.java  | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/compiler/core/src/zserio/ast/DynamicBitFieldInstantiation.java b/compiler/core/src/zserio/ast/DynamicBitFieldInstantiation.java
index af48233..2d7278e 100644
--- a/compiler/core/src/zserio/ast/DynamicBitFieldInstantiation.java
+++ b/compiler/core/src/zserio/ast/DynamicBitFieldInstantiation.java
@@ -125,14 +125,15 @@ public final class DynamicBitFieldInstantiation extends TypeInstantiation
             final BigInteger lengthValue = lengthExpression.getIntegerValue();
             if (lengthValue != null)
             {
-                maxBitSize = lengthValue.intValue();
-                if (maxBitSize < 1 || maxBitSize > DynamicBitFieldType.MAX_BIT_SIZE)
+                if (lengthValue.compareTo(BigInteger.ONE) < 0 ||
+                        lengthValue.compareTo(BigInteger.valueOf(DynamicBitFieldType.MAX_BIT_SIZE)) > 0)
                 {
                     throw new ParserException(lengthExpression,
-                            "Invalid length '" + maxBitSize +
+                            "Invalid length '" + lengthValue +
                                     "' for the dynamic bit field. Length must be within range [1," +
                                     DynamicBitFieldType.MAX_BIT_SIZE + "]!");
                 }
+                maxBitSize = lengthValue.intValue();
             }
             else
             {
-- 
2.43.0


From bdfe1dc52e0e117790de7d959cc81e82ce52c3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:12 +0000
Subject: [PATCH 45/89] fix: checks of compound types took time exponential in
 the depth of the type graph

---
 compiler/core/src/zserio/ast/ChoiceType.java  |   3 +-
 .../core/src/zserio/ast/CompoundType.java     | 175 ++++++++++++------
 .../core/src/zserio/ast/StructureType.java    |   3 +-
 compiler/core/src/zserio/ast/UnionType.java   |   3 +-
 4 files changed, 124 insertions(+), 60 deletions(-)

diff --git a/compiler/core/src/zserio/ast/ChoiceType.java b/compiler/core/src/zserio/ast/ChoiceType.java
index 25440cf..22ee1db 100644
--- a/compiler/core/src/zserio/ast/ChoiceType.java
+++ b/compiler/core/src/zserio/ast/ChoiceType.java
@@ -2,6 +2,7 @@ package zserio.ast;
 
 import java.util.ArrayList;
 import java.util.Collections;
+import java.util.HashSet;
 import java.util.List;
 import java.util.Set;
 
@@ -206,7 +207,7 @@ public final class ChoiceType extends CompoundType
             {
                 final ParserStackedException stackedException = new ParserStackedException(
                         field.getLocation(), "Field '" + field.getName() + "' contains an extended field!");
-                trackExtendedField(field, stackedException);
+                trackExtendedField(field, stackedException, new HashSet<CompoundType>());
                 throw stackedException;
             }
         }
diff --git a/compiler/core/src/zserio/ast/CompoundType.java b/compiler/core/src/zserio/ast/CompoundType.java
index d547dec..07ae842 100644
--- a/compiler/core/src/zserio/ast/CompoundType.java
+++ b/compiler/core/src/zserio/ast/CompoundType.java
@@ -123,26 +123,11 @@ public abstract class CompoundType extends TemplatableType
      */
     public boolean needsChildrenInitialization()
     {
-        for (Field field : fields)
-        {
-            TypeInstantiation typeInstantiation = field.getTypeInstantiation();
-            if (typeInstantiation instanceof ArrayInstantiation)
-                typeInstantiation = ((ArrayInstantiation)typeInstantiation).getElementTypeInstantiation();
-
-            final ZserioType fieldBaseType = typeInstantiation.getBaseType();
-            if (fieldBaseType instanceof CompoundType)
-            {
-                final CompoundType childCompoundType = (CompoundType)fieldBaseType;
-                // compound type can have itself as an optional field
-                if (!childCompoundType.getTypeParameters().isEmpty() ||
-                        (childCompoundType != this && childCompoundType.needsChildrenInitialization()))
-                {
-                    return true;
-                }
-            }
-        }
+        // result is cached because the compound types can form a graph with exponential number of paths
+        if (needsChildrenInitialization == null)
+            needsChildrenInitialization = evaluateNeedsChildrenInitialization();
 
-        return false;
+        return needsChildrenInitialization;
     }
 
     /**
@@ -237,27 +222,10 @@ public abstract class CompoundType extends TemplatableType
 
     protected boolean hasPackableField()
     {
-        for (Field field : fields)
-        {
-            // prevent cycle in recursion
-            TypeInstantiation typeInstantiation = field.getTypeInstantiation();
-            if (typeInstantiation instanceof ArrayInstantiation)
-            {
-                typeInstantiation = ((ArrayInstantiation)typeInstantiation).getElementTypeInstantiation();
-            }
-            final ZserioType fieldBaseType = typeInstantiation.getBaseType();
-            if (fieldBaseType instanceof CompoundType)
-            {
-                final CompoundType childCompoundType = (CompoundType)fieldBaseType;
-                if (childCompoundType == this)
-                    continue;
-            }
-
-            if (field.isPackable())
-                return true;
-        }
+        if (hasPackableField == null)
+            hasPackableField = evaluateHasPackableField();
 
-        return false;
+        return hasPackableField;
     }
 
     protected boolean containsExtendedField(Field field)
@@ -271,23 +239,12 @@ public abstract class CompoundType extends TemplatableType
             fieldBaseType = arrayInstantiation.getElementTypeInstantiation().getBaseType();
         }
 
-        if (fieldBaseType instanceof CompoundType)
-        {
-            final CompoundType childCompoundType = (CompoundType)fieldBaseType;
-            for (Field childField : childCompoundType.getFields())
-            {
-                if (childField.isExtended())
-                    return true;
-
-                if (childCompoundType != this && childCompoundType.containsExtendedField(childField))
-                    return true;
-            }
-        }
-
-        return false;
+        return fieldBaseType instanceof CompoundType &&
+                ((CompoundType)fieldBaseType).containsExtendedField(fieldBaseType == this);
     }
 
-    protected void trackExtendedField(Field field, ParserStackedException stackedException)
+    protected void trackExtendedField(
+            Field field, ParserStackedException stackedException, Set<CompoundType> trackedTypes)
     {
         final TypeInstantiation typeInstantiation = field.getTypeInstantiation();
         ZserioType fieldBaseType = typeInstantiation.getBaseType();
@@ -300,6 +257,9 @@ public abstract class CompoundType extends TemplatableType
         if (fieldBaseType instanceof CompoundType)
         {
             final CompoundType childCompoundType = (CompoundType)fieldBaseType;
+            if (!trackedTypes.add(childCompoundType))
+                return;
+
             for (Field childField : childCompoundType.getFields())
             {
                 if (childField.isExtended())
@@ -309,7 +269,7 @@ public abstract class CompoundType extends TemplatableType
                 else if (childCompoundType != this && childCompoundType.containsExtendedField(childField))
                 {
                     stackedException.pushMessage(childField.getLocation(), "    extended field used here");
-                    childCompoundType.trackExtendedField(childField, stackedException);
+                    childCompoundType.trackExtendedField(childField, stackedException, trackedTypes);
                 }
             }
         }
@@ -349,7 +309,7 @@ public abstract class CompoundType extends TemplatableType
         {
             final CompoundType childCompoundType = (CompoundType)fieldBaseType;
             if (childCompoundType != this) // prevent recursion (can occur in case of non-empty array)
-                return childCompoundType.hasBranchWithoutImplicitArray();
+                return childCompoundType.hasBranchWithoutImplicitArrayCached();
         }
 
         return true;
@@ -426,13 +386,107 @@ public abstract class CompoundType extends TemplatableType
         {
             final CompoundType childCompoundType = (CompoundType)fieldBaseType;
             if (childCompoundType != this) // prevent recursion (can occur in case of non-empty array)
-                return childCompoundType.hasEmptyBranch(implicitCanBeEmpty);
+                return childCompoundType.hasEmptyBranchCached(implicitCanBeEmpty);
             // note: never ending recursion should have been caught by checkDirectRecursion
         }
 
         return false;
     }
 
+    private boolean evaluateNeedsChildrenInitialization()
+    {
+        for (Field field : fields)
+        {
+            TypeInstantiation typeInstantiation = field.getTypeInstantiation();
+            if (typeInstantiation instanceof ArrayInstantiation)
+                typeInstantiation = ((ArrayInstantiation)typeInstantiation).getElementTypeInstantiation();
+
+            final ZserioType fieldBaseType = typeInstantiation.getBaseType();
+            if (fieldBaseType instanceof CompoundType)
+            {
+                final CompoundType childCompoundType = (CompoundType)fieldBaseType;
+                // compound type can have itself as an optional field
+                if (!childCompoundType.getTypeParameters().isEmpty() ||
+                        (childCompoundType != this && childCompoundType.needsChildrenInitialization()))
+                {
+                    return true;
+                }
+            }
+        }
+
+        return false;
+    }
+
+    private boolean evaluateHasPackableField()
+    {
+        for (Field field : fields)
+        {
+            // prevent cycle in recursion
+            TypeInstantiation typeInstantiation = field.getTypeInstantiation();
+            if (typeInstantiation instanceof ArrayInstantiation)
+            {
+                typeInstantiation = ((ArrayInstantiation)typeInstantiation).getElementTypeInstantiation();
+            }
+            final ZserioType fieldBaseType = typeInstantiation.getBaseType();
+            if (fieldBaseType instanceof CompoundType)
+            {
+                final CompoundType childCompoundType = (CompoundType)fieldBaseType;
+                if (childCompoundType == this)
+                    continue;
+            }
+
+            if (field.isPackable())
+                return true;
+        }
+
+        return false;
+    }
+
+    private boolean containsExtendedField(boolean ignoreDescendants)
+    {
+        if (!ignoreDescendants && containsExtendedField != null)
+            return containsExtendedField;
+
+        boolean result = false;
+        for (Field field : fields)
+        {
+            if (field.isExtended() || (!ignoreDescendants && containsExtendedField(field)))
+            {
+                result = true;
+                break;
+            }
+        }
+
+        if (!ignoreDescendants)
+            containsExtendedField = result;
+
+        return result;
+    }
+
+    private boolean hasBranchWithoutImplicitArrayCached()
+    {
+        if (hasBranchWithoutImplicitArray == null)
+            hasBranchWithoutImplicitArray = hasBranchWithoutImplicitArray();
+
+        return hasBranchWithoutImplicitArray;
+    }
+
+    private boolean hasEmptyBranchCached(boolean implicitCanBeEmpty)
+    {
+        if (implicitCanBeEmpty)
+        {
+            if (hasEmptyBranchImplicit == null)
+                hasEmptyBranchImplicit = hasEmptyBranch(true);
+
+            return hasEmptyBranchImplicit;
+        }
+
+        if (hasEmptyBranch == null)
+            hasEmptyBranch = hasEmptyBranch(false);
+
+        return hasEmptyBranch;
+    }
+
     private void checkDirectRecursion()
     {
         // check recursive fields which are not arrays
@@ -505,4 +559,11 @@ public abstract class CompoundType extends TemplatableType
     private final List<Field> fields;
     private final List<Parameter> typeParameters;
     private final List<Function> functions;
+
+    private Boolean needsChildrenInitialization = null;
+    private Boolean hasPackableField = null;
+    private Boolean containsExtendedField = null;
+    private Boolean hasBranchWithoutImplicitArray = null;
+    private Boolean hasEmptyBranch = null;
+    private Boolean hasEmptyBranchImplicit = null;
 }
diff --git a/compiler/core/src/zserio/ast/StructureType.java b/compiler/core/src/zserio/ast/StructureType.java
index b2a664e..3d57688 100644
--- a/compiler/core/src/zserio/ast/StructureType.java
+++ b/compiler/core/src/zserio/ast/StructureType.java
@@ -1,6 +1,7 @@
 package zserio.ast;
 
 import java.util.ArrayList;
+import java.util.HashSet;
 import java.util.List;
 
 /**
@@ -110,7 +111,7 @@ public final class StructureType extends CompoundType
             {
                 final ParserStackedException stackedException = new ParserStackedException(
                         field.getLocation(), "Field '" + field.getName() + "' contains an extended field!");
-                trackExtendedField(field, stackedException);
+                trackExtendedField(field, stackedException, new HashSet<CompoundType>());
                 throw stackedException;
             }
 
diff --git a/compiler/core/src/zserio/ast/UnionType.java b/compiler/core/src/zserio/ast/UnionType.java
index 38aa73b..63b79c6 100644
--- a/compiler/core/src/zserio/ast/UnionType.java
+++ b/compiler/core/src/zserio/ast/UnionType.java
@@ -1,6 +1,7 @@
 package zserio.ast;
 
 import java.util.ArrayList;
+import java.util.HashSet;
 import java.util.List;
 
 /**
@@ -84,7 +85,7 @@ public final class UnionType extends CompoundType
             {
                 final ParserStackedException stackedException = new ParserStackedException(
                         field.getLocation(), "Field '" + field.getName() + "' contains an extended field!");
-                trackExtendedField(field, stackedException);
+                trackExtendedField(field, stackedException, new HashSet<CompoundType>());
                 throw stackedException;
             }
         }
-- 
2.43.0


From 8728fdcc4f3b850db887291b4e54f31ad8f1e64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:12 +0000
Subject: [PATCH 46/89] fix: types used by a recursive packed array had no
 packing code, collecting of packed types was exponential

---
 .../src/zserio/extension/common/PackedTypesCollector.java     | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/compiler/core/src/zserio/extension/common/PackedTypesCollector.java b/compiler/core/src/zserio/extension/common/PackedTypesCollector.java
index 97e8979..8b558ca 100644
--- a/compiler/core/src/zserio/extension/common/PackedTypesCollector.java
+++ b/compiler/core/src/zserio/extension/common/PackedTypesCollector.java
@@ -81,7 +81,8 @@ public class PackedTypesCollector extends ZserioAstWalker
                         // mark also templates as used in a packed array
                         packedTypes.add(fieldCompoundType.getTemplate());
                     }
-                    if (!compoundType.equals(fieldCompoundType))
+                    // visit each compound type within packed array only once, it can be recursive
+                    if (visitedPackedTypes.add(fieldCompoundType))
                     {
                         fieldCompoundType.accept(this);
                     }
@@ -102,4 +103,5 @@ public class PackedTypesCollector extends ZserioAstWalker
 
     private int packedArraysDepth = 0;
     private final Set<ZserioType> packedTypes = new HashSet<ZserioType>();
+    private final Set<CompoundType> visitedPackedTypes = new HashSet<CompoundType>();
 };
-- 
2.43.0


From 9899810a32d2501a3e1a8cdf8bd86305651b3503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:12 +0000
Subject: [PATCH 47/89] fix: template arguments of a type which is not a
 template were not refused in templates which are never instantiated

---
 compiler/core/src/zserio/ast/TypeReference.java | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/compiler/core/src/zserio/ast/TypeReference.java b/compiler/core/src/zserio/ast/TypeReference.java
index 13439de..a8ef925 100644
--- a/compiler/core/src/zserio/ast/TypeReference.java
+++ b/compiler/core/src/zserio/ast/TypeReference.java
@@ -172,6 +172,23 @@ public final class TypeReference extends AstNodeBase
                 throw new ParserException(
                         this, "Missing template arguments for template '" + getReferencedTypeName() + "'!");
         }
+        // type references within a template must be checked even if the template is never instantiated
+        if (templateParameters != null && !templateParameters.isEmpty() && !templateArguments.isEmpty() &&
+                !(symbol instanceof TemplateParameter))
+        {
+            if (symbol instanceof Subtype || symbol instanceof InstantiateType ||
+                    (symbol instanceof TemplatableType &&
+                            ((TemplatableType)symbol).getTemplateParameters().isEmpty()))
+            {
+                throw new ParserException(
+                        this, "'" + ZserioTypeUtil.getReferencedFullName(this) + "' is not a template!");
+            }
+            else if (!(symbol instanceof TemplatableType))
+            {
+                throw new ParserException(
+                        this, "'" + ZserioTypeUtil.getReferencedFullName(this) + "' is not a templatable type!");
+            }
+        }
         type = (ZserioType)symbol;
 
         isResolved = true;
-- 
2.43.0


From 1ceb7200df0aff470caa43a62c18305e87f2b37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:13 +0000
Subject: [PATCH 48/89] fix: octal literals with a zero digit changed value in
 template instantiations

---
 compiler/core/src/zserio/ast/Expression.java | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/compiler/core/src/zserio/ast/Expression.java b/compiler/core/src/zserio/ast/Expression.java
index fe94d10..1f694ea 100644
--- a/compiler/core/src/zserio/ast/Expression.java
+++ b/compiler/core/src/zserio/ast/Expression.java
@@ -1941,9 +1941,12 @@ public final class Expression extends AstNodeBase
 
     private static String stripOctalLiteral(String octalLiteral)
     {
-        final int prefixPos = octalLiteral.indexOf('0');
+        // must not change already stripped literal (see instantiate method), so at least one digit must remain
+        int prefixLength = 0;
+        while (prefixLength < octalLiteral.length() - 1 && octalLiteral.charAt(prefixLength) == '0')
+            prefixLength++;
 
-        return (prefixPos == -1) ? octalLiteral : octalLiteral.substring(prefixPos + 1);
+        return octalLiteral.substring(prefixLength);
     }
 
     private static String stripHexadecimalLiteral(String hexadecimalLiteral)
-- 
2.43.0


From 0615ec429e90e2dac237f13dde6ce8f5928e43ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:13 +0000
Subject: [PATCH 49/89] fix: bytes and extern columns in sql tables were
 accepted by the compiler and crashed the generators

---
 compiler/core/src/zserio/ast/SqlTableType.java | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/compiler/core/src/zserio/ast/SqlTableType.java b/compiler/core/src/zserio/ast/SqlTableType.java
index d6f41c5..4d5790e 100644
--- a/compiler/core/src/zserio/ast/SqlTableType.java
+++ b/compiler/core/src/zserio/ast/SqlTableType.java
@@ -140,6 +140,7 @@ public final class SqlTableType extends CompoundType
 
         checkSqlSymbolNames();
         checkSqlTableFields();
+        checkSqlNativeTypes();
 
         checkExplicitParameters();
 
@@ -211,6 +212,20 @@ public final class SqlTableType extends CompoundType
         }
     }
 
+    private void checkSqlNativeTypes()
+    {
+        for (Field tableField : getFields())
+        {
+            final ZserioType fieldBaseType = tableField.getTypeInstantiation().getBaseType();
+            if (fieldBaseType instanceof BytesType || fieldBaseType instanceof ExternType)
+            {
+                throw new ParserException(tableField,
+                        "Field '" + tableField.getName() + "' cannot be used in a sql table since type '" +
+                                fieldBaseType.getName() + "' does not have any sql type!");
+            }
+        }
+    }
+
     private void checkOrdinaryTableFields()
     {
         if (getFields().isEmpty())
-- 
2.43.0


From f4335ffdd39cb13c294e9c0ae0ff5d41920c8da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:40 +0000
Subject: [PATCH 50/89] fix: Java generator failed on a subtype of an
 instantiate type

---
 .../java/src/zserio/extension/java/JavaNativeMapper.java   | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/compiler/extensions/java/src/zserio/extension/java/JavaNativeMapper.java b/compiler/extensions/java/src/zserio/extension/java/JavaNativeMapper.java
index 09efb7f..9aa9e96 100644
--- a/compiler/extensions/java/src/zserio/extension/java/JavaNativeMapper.java
+++ b/compiler/extensions/java/src/zserio/extension/java/JavaNativeMapper.java
@@ -13,6 +13,7 @@ import zserio.ast.EnumType;
 import zserio.ast.ExternType;
 import zserio.ast.FixedBitFieldType;
 import zserio.ast.FloatType;
+import zserio.ast.InstantiateType;
 import zserio.ast.PackageName;
 import zserio.ast.PackageSymbol;
 import zserio.ast.PubsubType;
@@ -329,6 +330,12 @@ final class JavaNativeMapper
             javaTypes = mapCompoundType(type);
         }
 
+        @Override
+        public void visitInstantiateType(InstantiateType type)
+        {
+            type.getTypeReference().getType().accept(this);
+        }
+
         @Override
         public void visitSubtype(Subtype type)
         {
-- 
2.43.0


From 7b025a3b8ba7e672e3ba67ac5fc5ae0ec3b101ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:00 +0000
Subject: [PATCH 51/89] fix: an empty block comment hid the schema text up to
 the end of the next comment

---
 compiler/core/antlr/ZserioLexer.g4 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/core/antlr/ZserioLexer.g4 b/compiler/core/antlr/ZserioLexer.g4
index 4e52012..0e2bd93 100644
--- a/compiler/core/antlr/ZserioLexer.g4
+++ b/compiler/core/antlr/ZserioLexer.g4
@@ -110,7 +110,8 @@ COMPAT_VERSION      : 'zserio_compatibility_version' ;
 WS : [\r\n\f\t ] -> skip ;
 
 // comments
-DOC_COMMENT : '/**' .*? '*/' -> channel(DOC) ;
+// '/**/' is an empty block comment
+DOC_COMMENT : '/**' '*'* ('*/' | ~[*/] .*? '*/') -> channel(DOC) ;
 MARKDOWN_COMMENT : '/*!' .*? '!'?'*/' -> channel(DOC) ;
 BLOCK_COMMENT : '/*' .*? '*/' -> channel(HIDDEN) ;
 LINE_COMMENT : '//' ~[\r\n\f]* -> channel(HIDDEN) ;
-- 
2.43.0


From 317edf8199bf197944b45b4bf31c1c574f0b513b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:13 +0000
Subject: [PATCH 52/89] fix: an instantiate command was ignored when its
 template arguments were instantiated earlier

---
 .../core/src/zserio/ast/TemplateArgument.java | 33 ++++++++++++++++---
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/compiler/core/src/zserio/ast/TemplateArgument.java b/compiler/core/src/zserio/ast/TemplateArgument.java
index c02c5a4..fe15bc2 100644
--- a/compiler/core/src/zserio/ast/TemplateArgument.java
+++ b/compiler/core/src/zserio/ast/TemplateArgument.java
@@ -58,9 +58,14 @@ public final class TemplateArgument extends AstNodeBase
         final TypeReference baseTypeReference = typeReference.getBaseTypeReference();
         final TypeReference otherBaseTypeReference = otherArgument.typeReference.getBaseTypeReference();
 
-        final String referencedBaseTypeFullName = ZserioTypeUtil.getFullName(baseTypeReference.getType());
-        final String otherReferencedBaseTypeFullName =
-                ZserioTypeUtil.getFullName(otherBaseTypeReference.getType());
+        // two instantiate types are always two different types
+        final InstantiateType instantiateType = getInstantiateType(typeReference);
+        final InstantiateType otherInstantiateType = getInstantiateType(otherArgument.typeReference);
+        if (instantiateType != null && otherInstantiateType != null && instantiateType != otherInstantiateType)
+            return false;
+
+        final String referencedBaseTypeFullName = getReferencedFullName(baseTypeReference);
+        final String otherReferencedBaseTypeFullName = getReferencedFullName(otherBaseTypeReference);
 
         return referencedBaseTypeFullName.equals(otherReferencedBaseTypeFullName) &&
                 baseTypeReference.getTemplateArguments().equals(otherBaseTypeReference.getTemplateArguments());
@@ -71,7 +76,7 @@ public final class TemplateArgument extends AstNodeBase
     {
         int hash = HashUtil.HASH_SEED;
         final TypeReference baseTypeReference = typeReference.getBaseTypeReference();
-        hash = HashUtil.hash(hash, ZserioTypeUtil.getFullName(baseTypeReference.getType()));
+        hash = HashUtil.hash(hash, getReferencedFullName(baseTypeReference));
         for (TemplateArgument templateArgument : baseTypeReference.getTemplateArguments())
             hash = HashUtil.hash(hash, templateArgument);
 
@@ -95,5 +100,25 @@ public final class TemplateArgument extends AstNodeBase
         return new TemplateArgument(getLocation(), instantiatedTypeReference);
     }
 
+    private static InstantiateType getInstantiateType(TypeReference typeReference)
+    {
+        ZserioType type = typeReference.getType();
+        while (type instanceof Subtype)
+            type = ((Subtype)type).getTypeReference().getType();
+
+        return (type instanceof InstantiateType) ? (InstantiateType)type : null;
+    }
+
+    private static String getReferencedFullName(TypeReference baseTypeReference)
+    {
+        final ZserioType type = baseTypeReference.getType();
+
+        // the name must not depend on whether the referenced template has been already instantiated or not
+        if (type instanceof TemplatableType && ((TemplatableType)type).getTemplate() != null)
+            return ZserioTypeUtil.getFullName(((TemplatableType)type).getTemplate());
+
+        return ZserioTypeUtil.getFullName(type);
+    }
+
     private final TypeReference typeReference;
 }
-- 
2.43.0


From cbf0046a1cc00d2a360fdc3f6d525d6df2de9a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:11 +0000
Subject: [PATCH 53/89] fix: isset of a template parameter and a bitmask was
 refused in templates

---
 compiler/core/src/zserio/ast/Expression.java | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/compiler/core/src/zserio/ast/Expression.java b/compiler/core/src/zserio/ast/Expression.java
index 1f694ea..740d5b2 100644
--- a/compiler/core/src/zserio/ast/Expression.java
+++ b/compiler/core/src/zserio/ast/Expression.java
@@ -1240,7 +1240,10 @@ public final class Expression extends AstNodeBase
             throw new ParserException(operand2, "'" + operand2.text + "' is not a bitmask!");
         }
 
-        if (operand1.zserioType != operand2.zserioType)
+        // types which depend on template parameters can be compared only in an instantiation
+        if (operand1.expressionType == ExpressionType.BITMASK &&
+                operand2.expressionType == ExpressionType.BITMASK &&
+                operand1.zserioType != operand2.zserioType)
         {
             throw new ParserException(operand2,
                     "'" + operand2.zserioType.getName() + "' does not match to '" +
-- 
2.43.0


From 46fff7485b812bb72220af774f97e78e25937dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:31 +0000
Subject: [PATCH 54/89] fix: items of template parameters were refused in
 templates beside other enum items and bitmask values

---
 compiler/core/src/zserio/ast/Expression.java | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/compiler/core/src/zserio/ast/Expression.java b/compiler/core/src/zserio/ast/Expression.java
index 740d5b2..800c97f 100644
--- a/compiler/core/src/zserio/ast/Expression.java
+++ b/compiler/core/src/zserio/ast/Expression.java
@@ -1459,10 +1459,15 @@ public final class Expression extends AstNodeBase
             throw new ParserException(operand2, "Division by zero!");
     }
 
+    private boolean isTemplateParameterDependent()
+    {
+        return expressionType == ExpressionType.TEMPLATE_PARAMETER_TYPE ||
+                expressionType == ExpressionType.TEMPLATE_PARAMETER_VALUE;
+    }
+
     private void evaluateBitExpression()
     {
-        if (operand1.expressionType == ExpressionType.TEMPLATE_PARAMETER_TYPE ||
-                operand2.expressionType == ExpressionType.TEMPLATE_PARAMETER_TYPE)
+        if (operand1.isTemplateParameterDependent() || operand2.isTemplateParameterDependent())
         {
             expressionType = ExpressionType.TEMPLATE_PARAMETER_TYPE;
             return;
@@ -1533,8 +1538,7 @@ public final class Expression extends AstNodeBase
         expressionType = ExpressionType.BOOLEAN;
 
         // TODO[TEMPLATES]
-        if (operand1.expressionType == ExpressionType.TEMPLATE_PARAMETER_TYPE ||
-                operand2.expressionType == ExpressionType.TEMPLATE_PARAMETER_TYPE)
+        if (operand1.isTemplateParameterDependent() || operand2.isTemplateParameterDependent())
         {
             return;
         }
@@ -1594,8 +1598,7 @@ public final class Expression extends AstNodeBase
             throw new ParserException(operand1, "Boolean expression expected!");
         }
 
-        if (operand2.expressionType == ExpressionType.TEMPLATE_PARAMETER_TYPE ||
-                operand3.expressionType == ExpressionType.TEMPLATE_PARAMETER_TYPE)
+        if (operand2.isTemplateParameterDependent() || operand3.isTemplateParameterDependent())
         {
             expressionType = ExpressionType.TEMPLATE_PARAMETER_TYPE;
             return;
-- 
2.43.0


From c19724564e40a873e23ecbb212ae7ccaa563d50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:03 +0000
Subject: [PATCH 55/89] fix: Python modules of types which are recursive by a
 subtype could not be imported

---
 .../python/CompoundFieldTemplateData.java        | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/compiler/extensions/python/src/zserio/extension/python/CompoundFieldTemplateData.java b/compiler/extensions/python/src/zserio/extension/python/CompoundFieldTemplateData.java
index ef97600..dcb68d6 100644
--- a/compiler/extensions/python/src/zserio/extension/python/CompoundFieldTemplateData.java
+++ b/compiler/extensions/python/src/zserio/extension/python/CompoundFieldTemplateData.java
@@ -34,7 +34,8 @@ public final class CompoundFieldTemplateData
 
         final TypeInstantiation fieldTypeInstantiation = field.getTypeInstantiation();
         final PythonNativeMapper pythonNativeMapper = context.getPythonNativeMapper();
-        final PythonNativeType nativeType = pythonNativeMapper.getPythonType(fieldTypeInstantiation);
+        final PythonNativeType nativeType =
+                getFieldPythonType(pythonNativeMapper, fieldTypeInstantiation, parentType);
         importCollector.importType(nativeType);
 
         typeInfo = new NativeTypeInfoTemplateData(nativeType, fieldTypeInstantiation);
@@ -351,7 +352,7 @@ public final class CompoundFieldTemplateData
             final PythonNativeMapper pythonNativeMapper = context.getPythonNativeMapper();
             final TypeInstantiation elementTypeInstantiation = arrayInstantiation.getElementTypeInstantiation();
             final PythonNativeType elementNativeType =
-                    pythonNativeMapper.getPythonType(elementTypeInstantiation);
+                    getFieldPythonType(pythonNativeMapper, elementTypeInstantiation, parentType);
             importCollector.importType(elementNativeType);
 
             requiresOwnerContext = createRequiresOwnerContext(elementTypeInstantiation);
@@ -608,6 +609,17 @@ public final class CompoundFieldTemplateData
         return new Offset(offsetExpression, pythonExpressionFormatter);
     }
 
+    private static PythonNativeType getFieldPythonType(PythonNativeMapper pythonNativeMapper,
+            TypeInstantiation typeInstantiation, ZserioType parentType) throws ZserioExtensionException
+    {
+        // subtype of the parent type cannot be imported because its module needs the parent type to be defined
+        if (!(typeInstantiation instanceof ArrayInstantiation) &&
+                typeInstantiation.getBaseType() == parentType)
+            return pythonNativeMapper.getPythonType(parentType);
+
+        return pythonNativeMapper.getPythonType(typeInstantiation);
+    }
+
     private static Array createArray(TemplateDataContext context, TypeInstantiation typeInstantiation,
             ZserioType parentType, ImportCollector importCollector) throws ZserioExtensionException
     {
-- 
2.43.0


From c841d4359e6320a7551cf1d14a816d67b1f1ef21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:47 +0000
Subject: [PATCH 56/89] fix: generated files depended on the default locale

---
 compiler/core/src/zserio/extension/common/FreeMarkerUtil.java | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/compiler/core/src/zserio/extension/common/FreeMarkerUtil.java b/compiler/core/src/zserio/extension/common/FreeMarkerUtil.java
index a5c45ec..952a439 100644
--- a/compiler/core/src/zserio/extension/common/FreeMarkerUtil.java
+++ b/compiler/core/src/zserio/extension/common/FreeMarkerUtil.java
@@ -13,6 +13,7 @@ import java.nio.charset.StandardCharsets;
 import java.util.ArrayList;
 import java.util.HashSet;
 import java.util.List;
+import java.util.Locale;
 import java.util.Set;
 
 import freemarker.template.Configuration;
@@ -42,6 +43,7 @@ public final class FreeMarkerUtil
             final Configuration newFreeMarkerConfig = new Configuration(Configuration.VERSION_2_3_28);
             newFreeMarkerConfig.setClassForTemplateLoading(classForTemplateLoading, '/' + FREEMARKER_LOCATION);
             newFreeMarkerConfig.setOutputEncoding("UTF-8");
+            newFreeMarkerConfig.setLocale(Locale.ENGLISH);
 
             freeMarkerConfig = newFreeMarkerConfig;
         }
-- 
2.43.0


From 03657f3b52a0919bc4863ec3ca6bd31014e4f43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:58 +0000
Subject: [PATCH 57/89] fix: amalgamated C++ sources were appended to the
 previous ones when the tool ran again in the same process

---
 .../extension/common/FreeMarkerUtil.java       | 18 ++----------------
 .../extension/cpp/CppDefaultEmitter.java       |  4 ++--
 2 files changed, 4 insertions(+), 18 deletions(-)

diff --git a/compiler/core/src/zserio/extension/common/FreeMarkerUtil.java b/compiler/core/src/zserio/extension/common/FreeMarkerUtil.java
index 952a439..ae41d1e 100644
--- a/compiler/core/src/zserio/extension/common/FreeMarkerUtil.java
+++ b/compiler/core/src/zserio/extension/common/FreeMarkerUtil.java
@@ -11,10 +11,8 @@ import java.io.OutputStreamWriter;
 import java.io.Writer;
 import java.nio.charset.StandardCharsets;
 import java.util.ArrayList;
-import java.util.HashSet;
 import java.util.List;
 import java.util.Locale;
-import java.util.Set;
 
 import freemarker.template.Configuration;
 import freemarker.template.Template;
@@ -85,27 +83,16 @@ public final class FreeMarkerUtil
      * @param templateName The template name with the path relatively to "/FREEMARKER_LOCATION" directory.
      * @param templateDataModel The template data model to apply.
      * @param outputFile The output to be generated.
-     * @param amalgamate True if the generated output will be amalgamated to the output file.
+     * @param append True if the generated output will be appended to the output file.
      * @param classForTemplateLoading The class which is used to get class loader for templates.
      *
      * @throws ZserioExtensionException In case of any template error.
      */
     public static void processTemplate(String templateName, Object templateDataModel, File outputFile,
-            Class<?> classForTemplateLoading, boolean amalgamate) throws ZserioExtensionException
+            Class<?> classForTemplateLoading, boolean append) throws ZserioExtensionException
     {
         FileUtil.createOutputDirectory(outputFile);
 
-        boolean append = false;
-        if (amalgamate)
-        {
-            final String outputDirName = outputFile.getParent();
-
-            if (amalgamatedDirectories.contains(outputDirName))
-                append = true;
-            else
-                amalgamatedDirectories.add(outputDirName);
-        }
-
         try (final FileOutputStream fileOutputStream = new FileOutputStream(outputFile, append);
                 final OutputStreamWriter outputStreamWriter = new OutputStreamWriter(fileOutputStream, "UTF-8");
                 final BufferedWriter bufferedWriter = new BufferedWriter(outputStreamWriter);)
@@ -175,7 +162,6 @@ public final class FreeMarkerUtil
     }
 
     private static volatile Configuration freeMarkerConfig;
-    private static Set<String> amalgamatedDirectories = new HashSet<String>();
 
     private static final String FREEMARKER_LOCATION = "freemarker/";
 }
diff --git a/compiler/extensions/cpp/src/zserio/extension/cpp/CppDefaultEmitter.java b/compiler/extensions/cpp/src/zserio/extension/cpp/CppDefaultEmitter.java
index 131103b..c09fe3d 100644
--- a/compiler/extensions/cpp/src/zserio/extension/cpp/CppDefaultEmitter.java
+++ b/compiler/extensions/cpp/src/zserio/extension/cpp/CppDefaultEmitter.java
@@ -105,7 +105,7 @@ abstract class CppDefaultEmitter extends DefaultTreeWalker
                 if (fileInfo) // not skipped
                 {
                     FreeMarkerUtil.processTemplate(CPP_TEMPLATE_LOCATION + templateName, templateData,
-                            outputFile, CppDefaultEmitter.class, amalgamate);
+                            outputFile, CppDefaultEmitter.class, true);
                 }
                 return;
             }
@@ -117,7 +117,7 @@ abstract class CppDefaultEmitter extends DefaultTreeWalker
         if (generate)
         {
             FreeMarkerUtil.processTemplate(CPP_TEMPLATE_LOCATION + templateName, templateData, outputFile,
-                    CppDefaultEmitter.class, amalgamate);
+                    CppDefaultEmitter.class);
         }
 
         outputFileManager.registerOutputFile(outputFile, generate);
-- 
2.43.0


From 2573f90e090c3ad4bad5833644420099449f5614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:10 +0000
Subject: [PATCH 58/89] fix: names of functions in the XML output

---
 .../extensions/xml/src/zserio/extension/xml/XmlAstWriter.java | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/compiler/extensions/xml/src/zserio/extension/xml/XmlAstWriter.java b/compiler/extensions/xml/src/zserio/extension/xml/XmlAstWriter.java
index f93a4c1..f2ec3b2 100644
--- a/compiler/extensions/xml/src/zserio/extension/xml/XmlAstWriter.java
+++ b/compiler/extensions/xml/src/zserio/extension/xml/XmlAstWriter.java
@@ -394,7 +394,9 @@ public final class XmlAstWriter implements ZserioAstVisitor
     @Override
     public void visitFunction(Function function)
     {
-        visitAstNode(function, "FUNCTION");
+        final Element xmlElement = xmlDoc.createElement("FUNCTION");
+        xmlElement.setAttribute("name", function.getName());
+        visitAstNode(function, xmlElement);
     }
 
     @Override
-- 
2.43.0


From 4a78639851820ef329fc9ceafa06bad7f18e7149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:10 +0000
Subject: [PATCH 59/89] fix: packed arrays in the documentation of choice
 fields

---
 compiler/extensions/doc/freemarker/choice.html.ftl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/extensions/doc/freemarker/choice.html.ftl b/compiler/extensions/doc/freemarker/choice.html.ftl
index 1ae0b55..99d8412 100644
--- a/compiler/extensions/doc/freemarker/choice.html.ftl
+++ b/compiler/extensions/doc/freemarker/choice.html.ftl
@@ -21,7 +21,7 @@ ${I}  </tr>
 ${I}  <tr>
 ${I}    <td class="indent empty"></td>
 ${I}    <td class="indent">
-${I}      <#if field.isArrayImplicit>implicit </#if><@compound_field_type_name field/>
+${I}      <#if field.isArrayImplicit>implicit </#if><#if field.isArrayPacked>packed </#if><@compound_field_type_name field/>
 ${I}    </td>
 ${I}    <td>
 ${I}      <@symbol_reference field.symbol/><#rt>
-- 
2.43.0


From 131e84422dff2d3a942d94597c632ccb40e2795e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:40 +0000
Subject: [PATCH 60/89] fix: types of functions among the users of a symbol in
 the documentation

---
 .../doc/src/zserio/extension/doc/UsedByCollector.java          | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/compiler/extensions/doc/src/zserio/extension/doc/UsedByCollector.java b/compiler/extensions/doc/src/zserio/extension/doc/UsedByCollector.java
index fc2bc9b..d14ece0 100644
--- a/compiler/extensions/doc/src/zserio/extension/doc/UsedByCollector.java
+++ b/compiler/extensions/doc/src/zserio/extension/doc/UsedByCollector.java
@@ -307,7 +307,10 @@ final class UsedByCollector extends DefaultTreeWalker
         }
 
         for (Function function : compoundType.getFunctions())
+        {
+            addSymbol(function.getReturnTypeReference(), usedSymbols);
             addSymbolsUsedInExpression(function.getResultExpression(), usedSymbols);
+        }
 
         return usedSymbols;
     }
-- 
2.43.0


From f23cabd649e6609e48b9621afa526c9aa372d362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:28 +0000
Subject: [PATCH 61/89] fix: unicode and hexadecimal escape sequences in C++
 string literals

---
 .../common/StringEscapeConverter.java         | 59 ++++++++++++++++---
 1 file changed, 51 insertions(+), 8 deletions(-)

diff --git a/compiler/core/src/zserio/extension/common/StringEscapeConverter.java b/compiler/core/src/zserio/extension/common/StringEscapeConverter.java
index d21701a..32b53e6 100644
--- a/compiler/core/src/zserio/extension/common/StringEscapeConverter.java
+++ b/compiler/core/src/zserio/extension/common/StringEscapeConverter.java
@@ -11,7 +11,9 @@ public final class StringEscapeConverter
     /**
      * Converts unicode escape sequences to hexadecimal in given string.
      *
-     * Only unicode escape sequences from interval &lt;'\u0000', '\u00FF'&gt; are converted.
+     * Only unicode escape sequences from interval &lt;'\u0000', '\u00FF'&gt; are converted. Unicode characters from
+     * interval &lt;'\u0080', '\u00FF'&gt; are converted to bytes of their UTF-8 encoding. Octal escape sequence is used
+     * wherever the hexadecimal escape sequence would swallow the next character of the string.
      *
      * @param stringToConvert String for escape sequences conversion.
      *
@@ -27,7 +29,7 @@ public final class StringEscapeConverter
             final char character = stringToConvert.charAt(index);
             int newIndex = index + 1;
             buffer.append(character);
-            if (character == STRING_ESCAPE_CHARACTER && newIndex + ESCAPE_UNICODE_LENGTH < endIndex)
+            if (character == STRING_ESCAPE_CHARACTER && newIndex < endIndex)
             {
                 final char escapeSpecifier = stringToConvert.charAt(newIndex);
                 if (escapeSpecifier == STRING_ESCAPE_CHARACTER)
@@ -35,20 +37,38 @@ public final class StringEscapeConverter
                     buffer.append(STRING_ESCAPE_CHARACTER);
                     newIndex++;
                 }
-                else if (escapeSpecifier == ESCAPE_UNICODE_SPECIFIER)
+                else if (escapeSpecifier == ESCAPE_UNICODE_SPECIFIER &&
+                        newIndex + ESCAPE_UNICODE_LENGTH <= endIndex)
                 {
                     final char firstUnicodeChar = stringToConvert.charAt(newIndex + 1);
                     final char secondUnicodeChar = stringToConvert.charAt(newIndex + 2);
                     if (firstUnicodeChar == '0' && secondUnicodeChar == '0')
                     {
-                        final char thirdUnicodeChar = stringToConvert.charAt(newIndex + 3);
-                        final char fourthUnicodeChar = stringToConvert.charAt(newIndex + 4);
-                        buffer.append(ESCAPE_HEXADECIMAL_SPECIFIER);
-                        buffer.append(thirdUnicodeChar);
-                        buffer.append(fourthUnicodeChar);
+                        final String hexDigits =
+                                stringToConvert.substring(newIndex + 3, newIndex + ESCAPE_UNICODE_LENGTH);
                         newIndex += ESCAPE_UNICODE_LENGTH;
+                        final int value = Integer.parseInt(hexDigits, 16);
+                        if (value > MAX_ASCII_VALUE)
+                        {
+                            // UTF-8 encoding has always two bytes here
+                            buffer.append(toOctalDigits(0xC0 | (value >> 6)));
+                            buffer.append(STRING_ESCAPE_CHARACTER);
+                            buffer.append(toOctalDigits(0x80 | (value & 0x3F)));
+                        }
+                        else
+                        {
+                            appendHexEscape(buffer, hexDigits, stringToConvert, newIndex);
+                        }
                     }
                 }
+                else if (escapeSpecifier == ESCAPE_HEXADECIMAL_SPECIFIER &&
+                        newIndex + ESCAPE_HEXADECIMAL_LENGTH <= endIndex)
+                {
+                    final String hexDigits =
+                            stringToConvert.substring(newIndex + 1, newIndex + ESCAPE_HEXADECIMAL_LENGTH);
+                    newIndex += ESCAPE_HEXADECIMAL_LENGTH;
+                    appendHexEscape(buffer, hexDigits, stringToConvert, newIndex);
+                }
             }
 
             index = newIndex;
@@ -100,10 +120,33 @@ public final class StringEscapeConverter
         return buffer.toString();
     }
 
+    private static void appendHexEscape(
+            StringBuilder buffer, String hexDigits, String stringToConvert, int nextIndex)
+    {
+        final boolean isNextHexDigit = nextIndex < stringToConvert.length() &&
+                Character.digit(stringToConvert.charAt(nextIndex), 16) != -1;
+        if (isNextHexDigit)
+        {
+            buffer.append(toOctalDigits(Integer.parseInt(hexDigits, 16)));
+        }
+        else
+        {
+            buffer.append(ESCAPE_HEXADECIMAL_SPECIFIER);
+            buffer.append(hexDigits);
+        }
+    }
+
+    private static String toOctalDigits(int value)
+    {
+        return String.format("%03o", value);
+    }
+
     private static final char STRING_ESCAPE_CHARACTER = '\\';
     private static final char ESCAPE_HEXADECIMAL_SPECIFIER = 'x';
     private static final char ESCAPE_UNICODE_SPECIFIER = 'u';
 
     private static final int ESCAPE_HEXADECIMAL_LENGTH = 3;
     private static final int ESCAPE_UNICODE_LENGTH = 5;
+
+    private static final int MAX_ASCII_VALUE = 0x7F;
 }
-- 
2.43.0


From 76c9f96116f75094323b05e0d180fad21281a3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:59 +0000
Subject: [PATCH 62/89] fix: escape sequences of line terminators, quotes and
 backslashes in Java string literals

---
 .../common/StringEscapeConverter.java         | 31 ++++++++++++++++---
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/compiler/core/src/zserio/extension/common/StringEscapeConverter.java b/compiler/core/src/zserio/extension/common/StringEscapeConverter.java
index 32b53e6..b08cc16 100644
--- a/compiler/core/src/zserio/extension/common/StringEscapeConverter.java
+++ b/compiler/core/src/zserio/extension/common/StringEscapeConverter.java
@@ -80,6 +80,10 @@ public final class StringEscapeConverter
     /**
      * Converts hexadecimal escape sequences to unicode in given string.
      *
+     * Java translates unicode escape sequences before it splits the source to tokens. Therefore octal escape
+     * sequence is used for characters which would break the string literal (line terminators, double quote and
+     * backslash).
+     *
      * @param stringToConvert String for escape sequences conversion.
      *
      * @return String with converted escape sequences.
@@ -106,12 +110,17 @@ public final class StringEscapeConverter
                 {
                     final char firstHexChar = stringToConvert.charAt(newIndex + 1);
                     final char secondHexChar = stringToConvert.charAt(newIndex + 2);
-                    buffer.append(ESCAPE_UNICODE_SPECIFIER);
-                    buffer.append("00");
-                    buffer.append(firstHexChar);
-                    buffer.append(secondHexChar);
+                    appendUnicodeEscape(buffer, "00" + firstHexChar + secondHexChar);
                     newIndex += ESCAPE_HEXADECIMAL_LENGTH;
                 }
+                else if (escapeSpecifier == ESCAPE_UNICODE_SPECIFIER &&
+                        newIndex + ESCAPE_UNICODE_LENGTH <= endIndex)
+                {
+                    final String hexDigits =
+                            stringToConvert.substring(newIndex + 1, newIndex + ESCAPE_UNICODE_LENGTH);
+                    appendUnicodeEscape(buffer, hexDigits);
+                    newIndex += ESCAPE_UNICODE_LENGTH;
+                }
             }
 
             index = newIndex;
@@ -136,6 +145,20 @@ public final class StringEscapeConverter
         }
     }
 
+    private static void appendUnicodeEscape(StringBuilder buffer, String hexDigits)
+    {
+        final int value = Integer.parseInt(hexDigits, 16);
+        if (value == '\n' || value == '\r' || value == '"' || value == STRING_ESCAPE_CHARACTER)
+        {
+            buffer.append(toOctalDigits(value));
+        }
+        else
+        {
+            buffer.append(ESCAPE_UNICODE_SPECIFIER);
+            buffer.append(hexDigits);
+        }
+    }
+
     private static String toOctalDigits(int value)
     {
         return String.format("%03o", value);
-- 
2.43.0


From 5cf70d9541536925c705f5b88a1a630197e386a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:06 +0000
Subject: [PATCH 63/89] fix: backslashes and triple quotes in generated
 documentation comments

---
 .../extension/java/DocCommentsTemplateData.java  | 16 +++++++++++-----
 .../python/DocCommentsTemplateData.java          | 14 ++++++++++----
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/compiler/extensions/java/src/zserio/extension/java/DocCommentsTemplateData.java b/compiler/extensions/java/src/zserio/extension/java/DocCommentsTemplateData.java
index 583516e..5fdcf4d 100644
--- a/compiler/extensions/java/src/zserio/extension/java/DocCommentsTemplateData.java
+++ b/compiler/extensions/java/src/zserio/extension/java/DocCommentsTemplateData.java
@@ -162,7 +162,7 @@ public final class DocCommentsTemplateData
                     throws ZserioExtensionException
             {
                 final DocText docText = docLineElement.getDocText();
-                docString = (docText != null) ? docText.getText() : null;
+                docString = (docText != null) ? escapeText(docText.getText()) : null;
 
                 final DocTagSee docTagSee = docLineElement.getSeeTag();
                 seeTag = (docTagSee != null) ? new DocTagSeeData(context, docTagSee) : null;
@@ -189,7 +189,7 @@ public final class DocCommentsTemplateData
     {
         public DocTagSeeData(TemplateDataContext context, DocTagSee docTagSee) throws ZserioExtensionException
         {
-            alias = docTagSee.getLinkAlias();
+            alias = escapeText(docTagSee.getLinkAlias());
 
             final JavaNativeMapper javaNativeMapper = context.getJavaNativeMapper();
             final SymbolReference symbolReference = docTagSee.getLinkSymbolReference();
@@ -200,7 +200,7 @@ public final class DocCommentsTemplateData
             if (referencedPackage == null)
             {
                 // link cannot be resolved
-                link = docTagSee.getLinkName();
+                link = escapeText(docTagSee.getLinkName());
             }
             else if (referencedPackageSymbol == null)
             {
@@ -210,7 +210,7 @@ public final class DocCommentsTemplateData
             else if (referencedPackageSymbol instanceof Subtype)
             {
                 // java has no subtypes so we cannot map it
-                link = docTagSee.getLinkName();
+                link = escapeText(docTagSee.getLinkName());
             }
             else if (referencedScopeSymbol == null)
             {
@@ -307,7 +307,7 @@ public final class DocCommentsTemplateData
         public DocTagParamData(TemplateDataContext context, DocTagParam docTagParam)
                 throws ZserioExtensionException
         {
-            name = docTagParam.getParamName();
+            name = escapeText(docTagParam.getParamName());
             description = new DocMultilineData(context, docTagParam);
         }
 
@@ -325,5 +325,11 @@ public final class DocCommentsTemplateData
         private final DocMultilineData description;
     }
 
+    private static String escapeText(String text)
+    {
+        // unicode escapes are translated even in comments
+        return text.replace("\\u", "&#92;u");
+    }
+
     private final List<DocParagraphData> docParagraphs;
 }
diff --git a/compiler/extensions/python/src/zserio/extension/python/DocCommentsTemplateData.java b/compiler/extensions/python/src/zserio/extension/python/DocCommentsTemplateData.java
index d6f74a7..e76f3ad 100644
--- a/compiler/extensions/python/src/zserio/extension/python/DocCommentsTemplateData.java
+++ b/compiler/extensions/python/src/zserio/extension/python/DocCommentsTemplateData.java
@@ -160,7 +160,7 @@ public final class DocCommentsTemplateData
                     throws ZserioExtensionException
             {
                 final DocText docText = docLineElement.getDocText();
-                docString = (docText != null) ? docText.getText() : null;
+                docString = (docText != null) ? escapeText(docText.getText()) : null;
 
                 final DocTagSee docTagSee = docLineElement.getSeeTag();
                 seeTag = (docTagSee != null) ? new DocTagSeeData(context, docTagSee) : null;
@@ -187,7 +187,7 @@ public final class DocCommentsTemplateData
     {
         public DocTagSeeData(TemplateDataContext context, DocTagSee docTagSee) throws ZserioExtensionException
         {
-            alias = docTagSee.getLinkAlias();
+            alias = escapeText(docTagSee.getLinkAlias());
 
             final PythonNativeMapper pythonNativeMapper = context.getPythonNativeMapper();
             final SymbolReference symbolReference = docTagSee.getLinkSymbolReference();
@@ -197,7 +197,7 @@ public final class DocCommentsTemplateData
             if (referencedPackage == null)
             {
                 // link cannot be resolved
-                link = docTagSee.getLinkName();
+                link = escapeText(docTagSee.getLinkName());
                 isCrossReference = false;
             }
             else if (referencedPackageSymbol == null)
@@ -295,7 +295,7 @@ public final class DocCommentsTemplateData
         public DocTagParamData(TemplateDataContext context, DocTagParam docTagParam)
                 throws ZserioExtensionException
         {
-            name = docTagParam.getParamName();
+            name = escapeText(docTagParam.getParamName());
             description = new DocMultilineData(context, docTagParam);
         }
 
@@ -313,5 +313,11 @@ public final class DocCommentsTemplateData
         private final DocMultilineData description;
     }
 
+    private static String escapeText(String text)
+    {
+        // documentation comments are generated into docstrings
+        return text.replace("\\", "\\\\").replace("\"\"\"", "\\\"\\\"\\\"");
+    }
+
     private final List<DocParagraphData> docParagraphs;
 }
-- 
2.43.0


From 04c053bfba4b71c8b0c4fcb1ac936762292fa477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:06 +0000
Subject: [PATCH 64/89] fix: Java expressions mixing big integer and native
 values

---
 compiler/core/src/zserio/ast/Expression.java  | 59 +++++++++++++++++--
 .../DefaultExpressionFormattingPolicy.java    |  6 ++
 .../extension/common/ExpressionFormatter.java |  9 +++
 .../common/ExpressionFormattingPolicy.java    |  2 +
 ...JavaDefaultExpressionFormattingPolicy.java | 42 +++++++------
 .../PythonExpressionFormattingPolicy.java     |  6 ++
 6 files changed, 100 insertions(+), 24 deletions(-)

diff --git a/compiler/core/src/zserio/ast/Expression.java b/compiler/core/src/zserio/ast/Expression.java
index 800c97f..df1ccef 100644
--- a/compiler/core/src/zserio/ast/Expression.java
+++ b/compiler/core/src/zserio/ast/Expression.java
@@ -365,6 +365,18 @@ public final class Expression extends AstNodeBase
         return needsBigIntegerCastingToNative;
     }
 
+    /**
+     * Gets needs native casting to BigInteger flag.
+     *
+     * @return Returns true if the expression is a value mapped to the native type (field, parameter, constant,
+     *                 function result, array element, index or result of built-in operator) which is used
+     *                 in the context which needs BigInteger type.
+     */
+    public boolean needsNativeCastingToBigInteger()
+    {
+        return needsNativeCastingToBigInteger;
+    }
+
     /**
      * Gets all objects of given class referenced from the expression.
      *
@@ -731,12 +743,16 @@ public final class Expression extends AstNodeBase
             expressionIntegerValue = new ExpressionIntegerValue(expressionIntegerValue.getValue(),
                     expressionIntegerValue.getLowerBound(), expressionIntegerValue.getUpperBound(), true);
 
-            if (operand1 != null)
+            if (isNativeValue())
+            {
+                // value itself is native, it must be cast as a whole
+                needsNativeCastingToBigInteger = true;
+            }
+            else if (operand1 != null)
             {
                 operand1.propagateNeedsBigInteger();
-                // shift count and array index keep their own type
-                if (operand2 != null && type != ZserioParser.LSHIFT && type != ZserioParser.RSHIFT &&
-                        type != ZserioParser.LBRACKET)
+                // shift count keeps its own type
+                if (operand2 != null && type != ZserioParser.LSHIFT && type != ZserioParser.RSHIFT)
                 {
                     operand2.propagateNeedsBigInteger();
                     if (operand3 != null)
@@ -746,6 +762,25 @@ public final class Expression extends AstNodeBase
         }
     }
 
+    private boolean isNativeValue()
+    {
+        switch (type)
+        {
+        case ZserioParser.ID:
+        case ZserioParser.DOT:
+        case ZserioParser.INDEX:
+        case ZserioParser.LBRACKET: // array element
+        case ZserioParser.RPAREN: // function call
+        case ZserioParser.LENGTHOF:
+        case ZserioParser.VALUEOF:
+        case ZserioParser.NUMBITS:
+            return true;
+
+        default:
+            return false;
+        }
+    }
+
     /**
      * Sets needs BigInteger casting flag.
      *
@@ -1770,7 +1805,19 @@ public final class Expression extends AstNodeBase
         constant.accept(evaluator);
 
         final Expression constValueExpression = constant.getValueExpression();
-        expressionIntegerValue = constValueExpression.expressionIntegerValue;
+        if (expressionType == ExpressionType.INTEGER &&
+                constValueExpression.expressionType == ExpressionType.INTEGER)
+        {
+            expressionIntegerValue =
+                    new ExpressionIntegerValue(constValueExpression.expressionIntegerValue.getValue(),
+                            constValueExpression.expressionIntegerValue.getLowerBound(),
+                            constValueExpression.expressionIntegerValue.getUpperBound(),
+                            expressionIntegerValue.needsBigInteger()); // needsBigInteger must be according to type
+        }
+        else
+        {
+            expressionIntegerValue = constValueExpression.expressionIntegerValue;
+        }
         expressionStringValue = constValueExpression.expressionStringValue;
     }
 
@@ -1901,6 +1948,7 @@ public final class Expression extends AstNodeBase
         expressionOwner = null;
         unresolvedIdentifiers = new ArrayList<Expression>();
         needsBigIntegerCastingToNative = false;
+        needsNativeCastingToBigInteger = false;
     }
 
     private enum EvaluationState
@@ -2016,4 +2064,5 @@ public final class Expression extends AstNodeBase
     private List<Expression> unresolvedIdentifiers;
 
     private boolean needsBigIntegerCastingToNative;
+    private boolean needsNativeCastingToBigInteger;
 }
diff --git a/compiler/core/src/zserio/extension/common/DefaultExpressionFormattingPolicy.java b/compiler/core/src/zserio/extension/common/DefaultExpressionFormattingPolicy.java
index 8fafadb..0f7ce2e 100644
--- a/compiler/core/src/zserio/extension/common/DefaultExpressionFormattingPolicy.java
+++ b/compiler/core/src/zserio/extension/common/DefaultExpressionFormattingPolicy.java
@@ -33,6 +33,12 @@ public abstract class DefaultExpressionFormattingPolicy implements ExpressionFor
         return new UnaryExpressionFormatting("");
     }
 
+    @Override
+    public UnaryExpressionFormatting getNativeCastingToBigInteger(Expression expr)
+    {
+        return new UnaryExpressionFormatting("");
+    }
+
     @Override
     public UnaryExpressionFormatting getUnaryPlus(Expression expr)
     {
diff --git a/compiler/core/src/zserio/extension/common/ExpressionFormatter.java b/compiler/core/src/zserio/extension/common/ExpressionFormatter.java
index e3d7269..7a7b550 100644
--- a/compiler/core/src/zserio/extension/common/ExpressionFormatter.java
+++ b/compiler/core/src/zserio/extension/common/ExpressionFormatter.java
@@ -72,6 +72,12 @@ public final class ExpressionFormatter
     {
         if (!tryEmitExpressionAsStringValue(expr))
         {
+            final boolean needsNativeCastingToBigInteger = expr.needsNativeCastingToBigInteger();
+            final ExpressionFormattingPolicy.UnaryExpressionFormatting castingFormatting =
+                    policy.getNativeCastingToBigInteger(expr);
+            if (needsNativeCastingToBigInteger)
+                buffer.append(castingFormatting.getBeforeOperand());
+
             final boolean isNegativeLiteral = wasUnaryMinus;
             wasUnaryMinus = false;
 
@@ -98,6 +104,9 @@ public final class ExpressionFormatter
                 throw new ZserioExtensionException(
                         "Expression with unexpected arity (" + arity + ") encountered!");
             }
+
+            if (needsNativeCastingToBigInteger)
+                buffer.append(castingFormatting.getAfterOperand());
         }
     }
 
diff --git a/compiler/core/src/zserio/extension/common/ExpressionFormattingPolicy.java b/compiler/core/src/zserio/extension/common/ExpressionFormattingPolicy.java
index 04a3527..85c406c 100644
--- a/compiler/core/src/zserio/extension/common/ExpressionFormattingPolicy.java
+++ b/compiler/core/src/zserio/extension/common/ExpressionFormattingPolicy.java
@@ -195,6 +195,8 @@ public interface ExpressionFormattingPolicy
     // unary expressions formatting
     public UnaryExpressionFormatting getBigIntegerCastingToNative(Expression expr)
             throws ZserioExtensionException;
+    public UnaryExpressionFormatting getNativeCastingToBigInteger(Expression expr)
+            throws ZserioExtensionException;
     public UnaryExpressionFormatting getUnaryPlus(Expression expr) throws ZserioExtensionException;
     public UnaryExpressionFormatting getUnaryMinus(Expression expr) throws ZserioExtensionException;
     public UnaryExpressionFormatting getTilde(Expression expr) throws ZserioExtensionException;
diff --git a/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java b/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java
index 5d6afe0..8c5cb20 100644
--- a/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java
+++ b/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java
@@ -42,8 +42,7 @@ public abstract class JavaDefaultExpressionFormattingPolicy extends DefaultExpre
     public String getDecimalLiteral(Expression expr, boolean isNegative)
     {
         String decLiteral = expr.getText();
-        // special work around for INT64_MIN, this value is not mapped to BigInteger
-        if (expr.needsBigInteger() && (!isNegative || !decLiteral.equals(DECIMAL_LITERAL_ABS_INT64_MIN)))
+        if (needsBigIntegerLiteral(expr, new BigInteger(decLiteral), isNegative))
         {
             // special handling for uint64 type
             decLiteral = getBigIntegerLiteral(decLiteral);
@@ -63,7 +62,7 @@ public abstract class JavaDefaultExpressionFormattingPolicy extends DefaultExpre
         String binaryLiteral = expr.getText();
         if (!binaryLiteral.isEmpty())
         {
-            if (expr.needsBigInteger())
+            if (needsBigIntegerLiteral(expr, new BigInteger(binaryLiteral, 2), isNegative))
             {
                 // special handling for uint64 type
                 binaryLiteral = getBigIntegerLiteral(binaryLiteral, 2);
@@ -72,7 +71,8 @@ public abstract class JavaDefaultExpressionFormattingPolicy extends DefaultExpre
             {
                 // binary literals are in Java only from version 1.7 => use hexadecimal instead of it
                 final BigInteger binaryInBigInteger = new BigInteger(binaryLiteral, 2);
-                binaryLiteral = JAVA_HEXADECIMAL_LITERAL_PREFIX + binaryInBigInteger.toString(16);
+                binaryLiteral = JAVA_HEXADECIMAL_LITERAL_PREFIX + binaryInBigInteger.toString(16) +
+                        getIntegerLiteralSuffix(binaryInBigInteger, isNegative);
             }
         }
 
@@ -83,7 +83,7 @@ public abstract class JavaDefaultExpressionFormattingPolicy extends DefaultExpre
     public String getHexadecimalLiteral(Expression expr, boolean isNegative)
     {
         // hexadecimal literals in Java are the same (with prefix "0x") but append "L" for long values
-        if (expr.needsBigInteger())
+        if (needsBigIntegerLiteral(expr, new BigInteger(expr.getText(), 16), isNegative))
         {
             // special handling for uint64 type
             return getBigIntegerLiteral(expr.getText(), 16);
@@ -101,13 +101,16 @@ public abstract class JavaDefaultExpressionFormattingPolicy extends DefaultExpre
     public String getOctalLiteral(Expression expr, boolean isNegative)
     {
         // octal literals in Java are the same (with prefix '0')
-        if (expr.needsBigInteger())
+        if (needsBigIntegerLiteral(expr, new BigInteger(expr.getText(), 8), isNegative))
         {
             // special handling for uint64 type
             return getBigIntegerLiteral(expr.getText(), 8);
         }
 
-        return JAVA_OCTAL_LITERAL_PREFIX + expr.getText();
+        final String octalLiteral = expr.getText();
+
+        return JAVA_OCTAL_LITERAL_PREFIX + octalLiteral +
+                getIntegerLiteralSuffix(new BigInteger(octalLiteral, 8), isNegative);
     }
 
     @Override
@@ -148,16 +151,9 @@ public abstract class JavaDefaultExpressionFormattingPolicy extends DefaultExpre
     public String getIdentifier(Expression expr, boolean isLastInDot, boolean isSetter)
             throws ZserioExtensionException
     {
-        // check if casting to BigInteger is necessary
         final String symbol = expr.getText();
         final boolean isMostLeftId = expr.isMostLeftId();
         final StringBuilder result = new StringBuilder();
-        final BigInteger exprUpperBound = expr.getIntegerUpperBound();
-        final boolean isMappedToBigInteger =
-                (exprUpperBound != null && exprUpperBound.compareTo(BigInteger.valueOf(Long.MAX_VALUE)) > 0);
-        final boolean needsCastingToBigInteger = (!isMappedToBigInteger && expr.needsBigInteger());
-        if (isMostLeftId && needsCastingToBigInteger)
-            result.append(BIG_INTEGER + ".valueOf(");
 
         // ignore package identifiers, they will be a part of the following Zserio type
         final AstNode resolvedSymbol = expr.getExprSymbolObject();
@@ -172,10 +168,6 @@ public abstract class JavaDefaultExpressionFormattingPolicy extends DefaultExpre
                         expr.getExprOwner(), isSetter);
         }
 
-        // finish casting to BigInteger
-        if (isLastInDot && needsCastingToBigInteger)
-            result.append(")");
-
         return result.toString();
     }
 
@@ -190,6 +182,12 @@ public abstract class JavaDefaultExpressionFormattingPolicy extends DefaultExpre
         return new UnaryExpressionFormatting("(", ").longValue()");
     }
 
+    @Override
+    public UnaryExpressionFormatting getNativeCastingToBigInteger(Expression expr)
+    {
+        return new UnaryExpressionFormatting(BIG_INTEGER + ".valueOf(", ")");
+    }
+
     @Override
     public UnaryExpressionFormatting getUnaryPlus(Expression expr)
     {
@@ -593,6 +591,12 @@ public abstract class JavaDefaultExpressionFormattingPolicy extends DefaultExpre
         result.append(nativeSymbol.getFullName());
     }
 
+    private static boolean needsBigIntegerLiteral(Expression expr, BigInteger literalValue, boolean isNegative)
+    {
+        // special work around for INT64_MIN, this value is not mapped to BigInteger
+        return expr.needsBigInteger() && (!isNegative || !literalValue.equals(ABS_INT64_MIN));
+    }
+
     private String getIntegerLiteralSuffix(BigInteger literalValue, boolean isNegative)
     {
         final long maxAbsIntValue = (isNegative) ? -(long)Integer.MIN_VALUE : (long)Integer.MAX_VALUE;
@@ -623,7 +627,7 @@ public abstract class JavaDefaultExpressionFormattingPolicy extends DefaultExpre
     private final static String JAVA_OCTAL_LITERAL_PREFIX = "0";
     private final static String JAVA_FLOAT_LITERAL_SUFFIX = "f";
 
-    private final static String DECIMAL_LITERAL_ABS_INT64_MIN = "9223372036854775808";
+    private final static BigInteger ABS_INT64_MIN = BigInteger.valueOf(Long.MIN_VALUE).negate();
     private final static String BIG_INTEGER = "java.math.BigInteger";
 
     private final JavaNativeMapper javaNativeMapper;
diff --git a/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java b/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
index 1bffb99..b140113 100644
--- a/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
+++ b/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
@@ -138,6 +138,12 @@ class PythonExpressionFormattingPolicy implements ExpressionFormattingPolicy
         return new UnaryExpressionFormatting("");
     }
 
+    @Override
+    public UnaryExpressionFormatting getNativeCastingToBigInteger(Expression expr)
+    {
+        return new UnaryExpressionFormatting("");
+    }
+
     @Override
     public UnaryExpressionFormatting getUnaryPlus(Expression expr)
     {
-- 
2.43.0


From 552f9f79d8ba3fad7f56e7aed143965482dd0d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:18 +0000
Subject: [PATCH 65/89] fix: reserved words among enumeration items, bitmask
 values, explicit parameters and converted Python names

---
 .../common/ReservedKeywordsClashChecker.java  | 45 +++++++++++++++++++
 .../extension/python/PythonExtension.java     |  8 +++-
 .../PythonGeneratedSymbolsClashChecker.java   | 18 ++++++++
 .../python/PythonModuleClashChecker.java      | 10 +++++
 .../python/PythonScopeSymbolClashChecker.java |  9 ++++
 5 files changed, 89 insertions(+), 1 deletion(-)

diff --git a/compiler/core/src/zserio/extension/common/ReservedKeywordsClashChecker.java b/compiler/core/src/zserio/extension/common/ReservedKeywordsClashChecker.java
index 5b4165f..49e9972 100644
--- a/compiler/core/src/zserio/extension/common/ReservedKeywordsClashChecker.java
+++ b/compiler/core/src/zserio/extension/common/ReservedKeywordsClashChecker.java
@@ -6,10 +6,13 @@ import java.util.Set;
 
 import zserio.ast.AstNode;
 import zserio.ast.BitmaskType;
+import zserio.ast.BitmaskValue;
 import zserio.ast.ChoiceType;
 import zserio.ast.CompoundType;
 import zserio.ast.Constant;
+import zserio.ast.EnumItem;
 import zserio.ast.EnumType;
+import zserio.ast.Expression;
 import zserio.ast.Field;
 import zserio.ast.Function;
 import zserio.ast.Import;
@@ -17,6 +20,8 @@ import zserio.ast.InstantiateType;
 import zserio.ast.Package;
 import zserio.ast.PackageSymbol;
 import zserio.ast.Parameter;
+import zserio.ast.ParameterizedTypeInstantiation;
+import zserio.ast.ParameterizedTypeInstantiation.InstantiatedParameter;
 import zserio.ast.PubsubMessage;
 import zserio.ast.PubsubType;
 import zserio.ast.Root;
@@ -28,6 +33,7 @@ import zserio.ast.SqlDatabaseType;
 import zserio.ast.SqlTableType;
 import zserio.ast.StructureType;
 import zserio.ast.Subtype;
+import zserio.ast.TypeInstantiation;
 import zserio.ast.UnionType;
 import zserio.tools.ZserioToolPrinter;
 
@@ -43,8 +49,22 @@ public final class ReservedKeywordsClashChecker implements TreeWalker
      * @param reservedKeywords Array of reserved keywords for the particular extension.
      */
     public ReservedKeywordsClashChecker(String languageName, String[] reservedKeywords)
+    {
+        this(languageName, reservedKeywords, true);
+    }
+
+    /**
+     * Constructor.
+     *
+     * @param languageName Name of the language to be reported in error messages.
+     * @param reservedKeywords Array of reserved keywords for the particular extension.
+     * @param checkItems Whether to check enum items and bitmask values. False for languages which generate
+     *                   the items using a different name.
+     */
+    public ReservedKeywordsClashChecker(String languageName, String[] reservedKeywords, boolean checkItems)
     {
         this.languageName = languageName;
+        this.checkItems = checkItems;
         this.reservedKeywords = new HashSet<String>(Arrays.asList(reservedKeywords));
     }
 
@@ -117,18 +137,42 @@ public final class ReservedKeywordsClashChecker implements TreeWalker
     public void beginEnumeration(EnumType enumType) throws ZserioExtensionException
     {
         checkId(enumType, "Enum");
+        if (checkItems)
+        {
+            for (EnumItem item : enumType.getItems())
+                checkId(item, "Enum item");
+        }
     }
 
     @Override
     public void beginBitmask(BitmaskType bitmaskType) throws ZserioExtensionException
     {
         checkId(bitmaskType, "Bitmask");
+        if (checkItems)
+        {
+            for (BitmaskValue value : bitmaskType.getValues())
+                checkId(value, "Bitmask value");
+        }
     }
 
     @Override
     public void beginSqlTable(SqlTableType sqlTableType) throws ZserioExtensionException
     {
         checkCompound(sqlTableType, "SQL Table");
+        for (Field field : sqlTableType.getFields())
+        {
+            final TypeInstantiation typeInstantiation = field.getTypeInstantiation();
+            if (typeInstantiation instanceof ParameterizedTypeInstantiation)
+            {
+                for (InstantiatedParameter param :
+                        ((ParameterizedTypeInstantiation)typeInstantiation).getInstantiatedParameters())
+                {
+                    final Expression argumentExpression = param.getArgumentExpression();
+                    if (argumentExpression.isExplicitVariable())
+                        checkId(argumentExpression.getText(), argumentExpression, "Explicit parameter");
+                }
+            }
+        }
     }
 
     @Override
@@ -195,5 +239,6 @@ public final class ReservedKeywordsClashChecker implements TreeWalker
     }
 
     private final String languageName;
+    private final boolean checkItems;
     private final Set<String> reservedKeywords;
 }
diff --git a/compiler/extensions/python/src/zserio/extension/python/PythonExtension.java b/compiler/extensions/python/src/zserio/extension/python/PythonExtension.java
index a5cd1cd..9da30ae 100644
--- a/compiler/extensions/python/src/zserio/extension/python/PythonExtension.java
+++ b/compiler/extensions/python/src/zserio/extension/python/PythonExtension.java
@@ -1,6 +1,7 @@
 package zserio.extension.python;
 
 import java.util.ArrayList;
+import java.util.Arrays;
 import java.util.List;
 
 import org.apache.commons.cli.Options;
@@ -60,7 +61,7 @@ public final class PythonExtension implements Extension
         rootNode.walk(compatibilityChecker);
 
         final ReservedKeywordsClashChecker pythonKeywordsClashChecker =
-                new ReservedKeywordsClashChecker("Python", PYTHON_KEYWORDS);
+                new ReservedKeywordsClashChecker("Python", PYTHON_KEYWORDS, false);
         rootNode.walk(pythonKeywordsClashChecker);
 
         final PythonTopLevelPackageClashChecker topLevelPackageClashChecker =
@@ -122,6 +123,11 @@ public final class PythonExtension implements Extension
     // List of Python keywords, got from Python 3.9 keyword module:
     // >>> import keyword
     // >>> keyword.kwlist
+    static boolean isKeyword(String name)
+    {
+        return Arrays.asList(PYTHON_KEYWORDS).contains(name);
+    }
+
     private static final String[] PYTHON_KEYWORDS = new String[] {"False", "None", "True", "__peg_parser__",
             "and", "as", "assert", "async", "await", "break", "class", "continue", "def", "del", "elif", "else",
             "except", "finally", "for", "from", "global", "if", "import", "in", "is", "lambda", "nonlocal",
diff --git a/compiler/extensions/python/src/zserio/extension/python/PythonGeneratedSymbolsClashChecker.java b/compiler/extensions/python/src/zserio/extension/python/PythonGeneratedSymbolsClashChecker.java
index e3eb3b4..f2113b9 100644
--- a/compiler/extensions/python/src/zserio/extension/python/PythonGeneratedSymbolsClashChecker.java
+++ b/compiler/extensions/python/src/zserio/extension/python/PythonGeneratedSymbolsClashChecker.java
@@ -111,6 +111,14 @@ final class PythonGeneratedSymbolsClashChecker extends DefaultTreeWalker
         private void check(ScopeSymbol scopeSymbol, String generatedName, String symbolDescription)
                 throws ZserioExtensionException
         {
+            if (PythonExtension.isKeyword(generatedName))
+            {
+                ZserioToolPrinter.printError(scopeSymbol.getLocation(),
+                        symbolDescription + " name '" + generatedName + "' generated for symbol '" +
+                                scopeSymbol.getName() + "' clashes with a Python keyword!");
+                throw new ZserioExtensionException(symbolDescription + " name error detected!");
+            }
+
             if (generatedName.startsWith("_"))
             {
                 ZserioToolPrinter.printError(scopeSymbol.getLocation(),
@@ -159,6 +167,14 @@ final class PythonGeneratedSymbolsClashChecker extends DefaultTreeWalker
         {
             super.check(scopeSymbol, generatedName, symbolDescription);
 
+            if (generatedName.equals(PROPERTY_DECORATOR))
+            {
+                ZserioToolPrinter.printError(scopeSymbol.getLocation(),
+                        symbolDescription + " name '" + generatedName + "' generated for symbol '" +
+                                scopeSymbol.getName() + "' clashes with Python decorator used in generated code!");
+                throw new ZserioExtensionException(symbolDescription + " name clash detected!");
+            }
+
             if (apiMethods.contains(generatedName))
             {
                 ZserioToolPrinter.printError(scopeSymbol.getLocation(),
@@ -181,6 +197,8 @@ final class PythonGeneratedSymbolsClashChecker extends DefaultTreeWalker
             }
         }
 
+        private static final String PROPERTY_DECORATOR = "property";
+
         private Set<String> getTemplateApiMethods(String templateName) throws ZserioExtensionException
         {
             final Set<String> templateMethods = new HashSet<String>();
diff --git a/compiler/extensions/python/src/zserio/extension/python/PythonModuleClashChecker.java b/compiler/extensions/python/src/zserio/extension/python/PythonModuleClashChecker.java
index d1672c2..f462932 100644
--- a/compiler/extensions/python/src/zserio/extension/python/PythonModuleClashChecker.java
+++ b/compiler/extensions/python/src/zserio/extension/python/PythonModuleClashChecker.java
@@ -129,6 +129,16 @@ final class PythonModuleClashChecker extends DefaultTreeWalker
             throws ZserioExtensionException
     {
         final String moduleName = pythonNativeSymbol.getModuleName();
+        if (PythonExtension.isKeyword(moduleName))
+        {
+            printErrorContext(packageSymbol);
+
+            ZserioToolPrinter.printError(packageSymbol.getLocation(),
+                    "Module '" + moduleName + "' generated for package symbol '" + packageSymbol.getName() +
+                            "' clashes with a Python keyword!");
+            throw new ZserioExtensionException("Module name clashing detected!");
+        }
+
         final PackageSymbol clashingPackageSymbol = packageSymbolMap.put(moduleName, packageSymbol);
         if (clashingPackageSymbol != null)
         {
diff --git a/compiler/extensions/python/src/zserio/extension/python/PythonScopeSymbolClashChecker.java b/compiler/extensions/python/src/zserio/extension/python/PythonScopeSymbolClashChecker.java
index 4c822a1..1d3efbd 100644
--- a/compiler/extensions/python/src/zserio/extension/python/PythonScopeSymbolClashChecker.java
+++ b/compiler/extensions/python/src/zserio/extension/python/PythonScopeSymbolClashChecker.java
@@ -142,6 +142,15 @@ final class PythonScopeSymbolClashChecker extends DefaultTreeWalker
                         final String explicitParamName = paramExpression.getText();
                         if (explicitParameters.add(explicitParamName)) // first time seeing this parameter
                         {
+                            if (PythonExtension.isKeyword(
+                                        PythonSymbolConverter.toLowerSnakeCase(explicitParamName)))
+                            {
+                                ZserioToolPrinter.printError(paramExpression.getLocation(),
+                                        "Explicit parameter '" + explicitParamName +
+                                                "' clashes with a Python keyword!");
+                                throw new ZserioExtensionException("Explicit parameter name clash detected!");
+                            }
+
                             final String prevExplicitParamName = snakeCaseExplicitParamMap.put(
                                     PythonSymbolConverter.toLowerSnakeCase(explicitParamName),
                                     explicitParamName);
-- 
2.43.0


From f96ed3b5ac50dfd844a9868db23872047849cbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:18 +0000
Subject: [PATCH 66/89] fix: Java SQL columns of enumerations and bitmasks
 stored as big integer

---
 .../java/freemarker/SqlTable.java.ftl         | 33 ++++++++++++++-----
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/compiler/extensions/java/freemarker/SqlTable.java.ftl b/compiler/extensions/java/freemarker/SqlTable.java.ftl
index 8be2561..d4aac3d 100644
--- a/compiler/extensions/java/freemarker/SqlTable.java.ftl
+++ b/compiler/extensions/java/freemarker/SqlTable.java.ftl
@@ -3,6 +3,18 @@
 <#include "RangeCheck.inc.ftl">
 <#include "TypeInfo.inc.ftl">
 <#include "DocComment.inc.ftl">
+<#function underlying_requires_big_int field>
+    <#return field.underlyingTypeInfo?? && field.underlyingTypeInfo.typeName == "BigInteger">
+</#function>
+<#macro underlying_value field valueVarName withCast>
+    <#if underlying_requires_big_int(field)>
+        java.math.BigInteger.valueOf(${valueVarName})<#t>
+    <#elseif withCast>
+        (${field.underlyingTypeInfo.typeFullName})${valueVarName}<#t>
+    <#else>
+        ${valueVarName}<#t>
+    </#if>
+</#macro>
 <@standard_header generatorDescription, packageName/>
 <#assign hasBlobField=sql_table_has_blob_field(fields)/>
 <#assign needsParameterProvider=explicitParameters?has_content/>
@@ -634,10 +646,10 @@ ${I}                (${parameter.typeInfo.typeFullName})(${parameter.expression}
     <#assign valueVarName="value${field.name?cap_first}"/>
     <#if field.sqlTypeData.isBlob>
             final byte[] ${valueVarName} = resultSet.getBytes(index<#sep>++</#sep>);
-    <#elseif field.underlyingTypeInfo??>
+    <#elseif field.underlyingTypeInfo?? && !underlying_requires_big_int(field)>
             final ${field.underlyingTypeInfo.typeFullName} ${valueVarName} = <#rt>
                     <#lt>resultSet.get${field.underlyingTypeInfo.typeName?cap_first}(index<#sep>++</#sep>);
-    <#elseif field.requiresBigInt>
+    <#elseif field.requiresBigInt || underlying_requires_big_int(field)>
             final long ${valueVarName} = resultSet.getLong(index<#sep>++</#sep>);
     <#else>
             final ${field.typeInfo.typeFullName} ${valueVarName} = resultSet.get${field.typeInfo.typeName?cap_first}(index<#sep>++</#sep>);
@@ -650,9 +662,9 @@ ${I}                (${parameter.typeInfo.typeFullName})(${parameter.expression}
             <@read_blob field, false, 3/>
                 row.set${field.name?cap_first}(blob);
     <#elseif field.typeInfo.isEnum>
-                row.set${field.name?cap_first}(${field.typeInfo.typeFullName}.toEnum(${valueVarName}));
+                row.set${field.name?cap_first}(${field.typeInfo.typeFullName}.toEnum(<@underlying_value field, valueVarName, false/>));
     <#elseif field.typeInfo.isBitmask>
-                row.set${field.name?cap_first}(new ${field.typeInfo.typeFullName}(${valueVarName}));
+                row.set${field.name?cap_first}(new ${field.typeInfo.typeFullName}(<@underlying_value field, valueVarName, false/>));
     <#elseif field.requiresBigInt>
                 row.set${field.name?cap_first}(java.math.BigInteger.valueOf(${valueVarName}));
     <#else>
@@ -687,7 +699,11 @@ ${I}                (${parameter.typeInfo.typeFullName})(${parameter.expression}
         <#elseif field.underlyingTypeInfo??>
                 final ${field.underlyingTypeInfo.typeFullName} underlyingValue =
                         row.get${field.name?cap_first}().getValue();
+            <#if underlying_requires_big_int(field)>
+                statement.setLong(index<#sep>++</#sep>, underlyingValue.longValue());
+            <#else>
                 statement.set${field.underlyingTypeInfo.typeName?cap_first}(index<#sep>++</#sep>, underlyingValue);
+            </#if>
         <#elseif field.requiresBigInt>
                 final long bigIntValue = row.get${field.name?cap_first}().longValue();
                 statement.setLong(index<#sep>++</#sep>, bigIntValue);
@@ -897,7 +913,8 @@ ${I}                (${parameter.typeInfo.typeFullName})(${parameter.expression}
             java.util.List<zserio.runtime.validation.ValidationError> errors, java.sql.ResultSet resultSet,
             ${rowName} row) throws java.sql.SQLException
     {
-                <#if field.typeInfo.isEnum || field.rangeCheckData.sqlRangeData?? || field.requiresBigInt>
+                <#if field.typeInfo.isEnum || field.rangeCheckData.sqlRangeData?? || field.requiresBigInt ||
+                        underlying_requires_big_int(field)>
         final long value = resultSet.getLong(${field?index + 1});
                 <#else>
         final ${field.typeInfo.typeFullName} value = resultSet.get${field.typeInfo.typeName?cap_first}(${field?index + 1});
@@ -911,7 +928,7 @@ ${I}                (${parameter.typeInfo.typeFullName})(${parameter.expression}
                     <#if field.typeInfo.isEnum>
             try
             {
-                ${field.typeInfo.typeFullName}.toEnum((${field.underlyingTypeInfo.typeFullName})value);
+                ${field.typeInfo.typeFullName}.toEnum(<@underlying_value field, "value", true/>);
             }
             catch (java.lang.IllegalArgumentException exception)
             {
@@ -925,10 +942,10 @@ ${I}                (${parameter.typeInfo.typeFullName})(${parameter.expression}
                 </#if>
                 <#if field.typeInfo.isEnum>
             row.set${field.name?cap_first}(
-                    ${field.typeInfo.typeFullName}.toEnum((${field.underlyingTypeInfo.typeFullName})value));
+                    ${field.typeInfo.typeFullName}.toEnum(<@underlying_value field, "value", true/>));
                 <#elseif field.typeInfo.isBitmask>
             row.set${field.name?cap_first}(
-                    new ${field.typeInfo.typeFullName}((${field.underlyingTypeInfo.typeFullName})value));
+                    new ${field.typeInfo.typeFullName}(<@underlying_value field, "value", true/>));
                 <#elseif field.requiresBigInt>
             row.set${field.name?cap_first}(java.math.BigInteger.valueOf(value));
                 <#elseif field.rangeCheckData.sqlRangeData??>
-- 
2.43.0


From c0096fc8f7f09eacea6c86bd52fe42bdfdc617ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:18 +0000
Subject: [PATCH 67/89] fix: qualified java.lang names in generated Java code

---
 .../java/freemarker/Bitmask.java.ftl          | 26 +++++++++----------
 .../java/freemarker/Choice.java.ftl           | 22 ++++++++--------
 .../java/freemarker/CompoundField.inc.ftl     | 10 +++----
 .../java/freemarker/Enumeration.java.ftl      | 20 +++++++-------
 .../java/freemarker/Pubsub.java.ftl           |  2 +-
 .../java/freemarker/Service.java.ftl          |  6 ++---
 .../java/freemarker/SqlDatabase.java.ftl      | 10 +++----
 .../java/freemarker/SqlTable.java.ftl         |  2 +-
 .../java/freemarker/Structure.java.ftl        | 22 ++++++++--------
 .../java/freemarker/TypeInfo.inc.ftl          |  2 +-
 .../extensions/java/freemarker/Union.java.ftl | 22 ++++++++--------
 11 files changed, 72 insertions(+), 72 deletions(-)

diff --git a/compiler/extensions/java/freemarker/Bitmask.java.ftl b/compiler/extensions/java/freemarker/Bitmask.java.ftl
index 0d77c3b..5634e15 100644
--- a/compiler/extensions/java/freemarker/Bitmask.java.ftl
+++ b/compiler/extensions/java/freemarker/Bitmask.java.ftl
@@ -114,7 +114,7 @@ public final class ${name} implements <#if withWriterCode>zserio.runtime.io.<#if
 </#if>
 <#if usedInPackedArray>
 
-    @Override
+    @java.lang.Override
     public void initPackingContext(zserio.runtime.array.PackingContext context)
     {
         final zserio.runtime.array.DeltaContext deltaContext = context.cast();
@@ -124,13 +124,13 @@ public final class ${name} implements <#if withWriterCode>zserio.runtime.io.<#if
     }
 </#if>
 
-    @Override
+    @java.lang.Override
     public int bitSizeOf()
     {
         return bitSizeOf(0);
     }
 
-    @Override
+    @java.lang.Override
     public int bitSizeOf(long bitPosition)
     {
 <#if bitSize??>
@@ -141,7 +141,7 @@ public final class ${name} implements <#if withWriterCode>zserio.runtime.io.<#if
     }
 <#if usedInPackedArray>
 
-    @Override
+    @java.lang.Override
     public int bitSizeOf(zserio.runtime.array.PackingContext context, long bitPosition)
     {
         final zserio.runtime.array.DeltaContext deltaContext = context.cast();
@@ -152,20 +152,20 @@ public final class ${name} implements <#if withWriterCode>zserio.runtime.io.<#if
 </#if>
 <#if withWriterCode>
 
-    @Override
+    @java.lang.Override
     public long initializeOffsets()
     {
         return initializeOffsets(0);
     }
 
-    @Override
+    @java.lang.Override
     public long initializeOffsets(long bitPosition)
     {
         return bitPosition + bitSizeOf(bitPosition);
     }
     <#if usedInPackedArray>
 
-    @Override
+    @java.lang.Override
     public long initializeOffsets(zserio.runtime.array.PackingContext context, long bitPosition)
     {
         return bitPosition + bitSizeOf(context, bitPosition);
@@ -173,7 +173,7 @@ public final class ${name} implements <#if withWriterCode>zserio.runtime.io.<#if
     </#if>
 </#if>
 
-    @Override
+    @java.lang.Override
     public boolean equals(java.lang.Object other)
     {
         if (!(other instanceof ${name}))
@@ -183,7 +183,7 @@ public final class ${name} implements <#if withWriterCode>zserio.runtime.io.<#if
         return <#if isBigInteger>value.equals(other${name}.value)<#else>value == other${name}.value</#if>;
     }
 
-    @Override
+    @java.lang.Override
     public int hashCode()
     {
         int result = zserio.runtime.HashCodeUtil.HASH_SEED;
@@ -191,7 +191,7 @@ public final class ${name} implements <#if withWriterCode>zserio.runtime.io.<#if
         return result;
     }
 
-    @Override
+    @java.lang.Override
     public java.lang.String toString()
     {
         final java.lang.StringBuilder builder = new java.lang.StringBuilder();
@@ -213,14 +213,14 @@ public final class ${name} implements <#if withWriterCode>zserio.runtime.io.<#if
     }
 <#if withWriterCode>
 
-    @Override
+    @java.lang.Override
     public void write(zserio.runtime.io.BitStreamWriter out) throws java.io.IOException
     {
         out.write${runtimeFunction.suffix}(value<#if runtimeFunction.arg??>, ${runtimeFunction.arg}</#if>);
     }
     <#if usedInPackedArray>
 
-    @Override
+    @java.lang.Override
     public void write(zserio.runtime.array.PackingContext context, zserio.runtime.io.BitStreamWriter out)
             throws java.io.IOException
     {
@@ -244,7 +244,7 @@ public final class ${name} implements <#if withWriterCode>zserio.runtime.io.<#if
         return value;
     }
 
-    @Override
+    @java.lang.Override
     public java.lang.Number getGenericValue()
     {
         return value;
diff --git a/compiler/extensions/java/freemarker/Choice.java.ftl b/compiler/extensions/java/freemarker/Choice.java.ftl
index 3f268eb..88bcc81 100644
--- a/compiler/extensions/java/freemarker/Choice.java.ftl
+++ b/compiler/extensions/java/freemarker/Choice.java.ftl
@@ -243,7 +243,7 @@ ${I}// empty
 ${I}break;
     </#if>
 </#macro>
-    @Override
+    @java.lang.Override
     public void initPackingContext(zserio.runtime.array.PackingContext context)
     {
     <#if uses_packing_context(fieldList)>
@@ -253,7 +253,7 @@ ${I}break;
     }
 </#if>
 
-    @Override
+    @java.lang.Override
     public int bitSizeOf()
     {
         return bitSizeOf(0);
@@ -270,7 +270,7 @@ ${I}// empty
 ${I}break;
     </#if>
 </#macro>
-    @Override
+    @java.lang.Override
     public int bitSizeOf(long bitPosition)
     {
 <#if fieldList?has_content>
@@ -285,7 +285,7 @@ ${I}break;
     }
 <#if isPackable && usedInPackedArray>
 
-    @Override
+    @java.lang.Override
     public int bitSizeOf(zserio.runtime.array.PackingContext context, long bitPosition)
     {
     <#if uses_packing_context(fieldList)>
@@ -355,7 +355,7 @@ ${I}break;
     </#if>
 </#list>
 <@compound_functions compoundFunctionsData/>
-    @Override
+    @java.lang.Override
     public boolean equals(java.lang.Object obj)
     {
 <#if compoundParametersData.list?has_content || fieldList?has_content>
@@ -400,7 +400,7 @@ ${I}// empty
 ${I}break;
     </#if>
 </#macro>
-    @Override
+    @java.lang.Override
     public int hashCode()
     {
         int result = zserio.runtime.HashCodeUtil.HASH_SEED;
@@ -468,7 +468,7 @@ ${I}break;
 </#if>
 <#if withWriterCode>
 
-    @Override
+    @java.lang.Override
     public long initializeOffsets()
     {
         return initializeOffsets(0);
@@ -491,7 +491,7 @@ ${I}// empty
 ${I}break;
     </#if>
 </#macro>
-    @Override
+    @java.lang.Override
     public long initializeOffsets(long bitPosition)
     {
     <#if fieldList?has_content>
@@ -506,7 +506,7 @@ ${I}break;
     }
 <#if isPackable && usedInPackedArray>
 
-    @Override
+    @java.lang.Override
     public long initializeOffsets(zserio.runtime.array.PackingContext context, long bitPosition)
     {
     <#if uses_packing_context(fieldList)>
@@ -532,7 +532,7 @@ ${I}// empty
 ${I}break;
     </#if>
 </#macro>
-    @Override
+    @java.lang.Override
     public void write(zserio.runtime.io.BitStreamWriter out) throws java.io.IOException
     {
     <#if fieldList?has_content>
@@ -541,7 +541,7 @@ ${I}break;
     }
     <#if isPackable && usedInPackedArray>
 
-    @Override
+    @java.lang.Override
     public void write(zserio.runtime.array.PackingContext context, zserio.runtime.io.BitStreamWriter out)
             throws java.io.IOException
     {
diff --git a/compiler/extensions/java/freemarker/CompoundField.inc.ftl b/compiler/extensions/java/freemarker/CompoundField.inc.ftl
index 8aa010f..9001b50 100644
--- a/compiler/extensions/java/freemarker/CompoundField.inc.ftl
+++ b/compiler/extensions/java/freemarker/CompoundField.inc.ftl
@@ -505,7 +505,7 @@ ${I}<@compound_get_field field/>.initPackingContext(zserioContext.${field.getter
 <#macro define_offset_checker compoundName field>
     private final class <@offset_checker_name field.name/> implements zserio.runtime.array.OffsetChecker
     {
-        @Override
+        @java.lang.Override
         public void checkOffset(int index, long byteOffset) throws zserio.runtime.ZserioError
         {
             if (byteOffset != <@compound_field_get_offset field/>)
@@ -524,7 +524,7 @@ ${I}<@compound_get_field field/>.initPackingContext(zserioContext.${field.getter
 <#macro define_offset_initializer field>
     private final class <@offset_initializer_name field.name/> implements zserio.runtime.array.OffsetInitializer
     {
-        @Override
+        @java.lang.Override
         public void setOffset(int index, long byteOffset)
         {
             final ${field.offset.typeInfo.typeFullName} value = <#rt>
@@ -551,7 +551,7 @@ ${I}<@compound_get_field field/>.initPackingContext(zserioContext.${field.getter
     private <#if !field.array.requiresOwnerContext>static </#if>final class <@element_factory_name field.name/> <#rt>
         <#lt>implements zserio.runtime.array.<#if field.isPackable && field.array.elementUsedInPackedArray>Packable</#if>ElementFactory<${field.array.elementTypeInfo.typeFullName}>
     {
-        @Override
+        @java.lang.Override
         public ${field.array.elementTypeInfo.typeFullName} create(zserio.runtime.io.BitStreamReader in, int index)
                 throws java.io.IOException
         {
@@ -563,13 +563,13 @@ ${I}<@compound_get_field field/>.initPackingContext(zserioContext.${field.getter
         }
     <#if field.isPackable && field.array.elementUsedInPackedArray>
 
-        @Override
+        @java.lang.Override
         public zserio.runtime.array.PackingContext createPackingContext()
         {
             return new <@field_packing_context_type_name field/>();
         }
 
-        @Override
+        @java.lang.Override
         public ${field.array.elementTypeInfo.typeFullName} create(zserio.runtime.array.PackingContext context,
                 zserio.runtime.io.BitStreamReader in, int index) throws java.io.IOException
         {
diff --git a/compiler/extensions/java/freemarker/Enumeration.java.ftl b/compiler/extensions/java/freemarker/Enumeration.java.ftl
index 103d53f..48b95e1 100644
--- a/compiler/extensions/java/freemarker/Enumeration.java.ftl
+++ b/compiler/extensions/java/freemarker/Enumeration.java.ftl
@@ -45,7 +45,7 @@ public enum ${name} implements <#if withWriterCode>zserio.runtime.io.<#if usedIn
         return value;
     }
 
-    @Override
+    @java.lang.Override
     public java.lang.Number getGenericValue()
     {
         return value;
@@ -76,7 +76,7 @@ public enum ${name} implements <#if withWriterCode>zserio.runtime.io.<#if usedIn
 </#if>
 <#if usedInPackedArray>
 
-    @Override
+    @java.lang.Override
     public void initPackingContext(zserio.runtime.array.PackingContext context)
     {
         final zserio.runtime.array.DeltaContext deltaContext = context.cast();
@@ -86,13 +86,13 @@ public enum ${name} implements <#if withWriterCode>zserio.runtime.io.<#if usedIn
     }
 </#if>
 
-    @Override
+    @java.lang.Override
     public int bitSizeOf()
     {
         return bitSizeOf(0);
     }
 
-    @Override
+    @java.lang.Override
     public int bitSizeOf(long bitPosition)
     {
 <#if bitSize??>
@@ -103,7 +103,7 @@ public enum ${name} implements <#if withWriterCode>zserio.runtime.io.<#if usedIn
     }
 <#if usedInPackedArray>
 
-    @Override
+    @java.lang.Override
     public int bitSizeOf(zserio.runtime.array.PackingContext context, long bitPosition)
     {
         final zserio.runtime.array.DeltaContext deltaContext = context.cast();
@@ -114,20 +114,20 @@ public enum ${name} implements <#if withWriterCode>zserio.runtime.io.<#if usedIn
 </#if>
 <#if withWriterCode>
 
-    @Override
+    @java.lang.Override
     public long initializeOffsets()
     {
         return initializeOffsets(0);
     }
 
-    @Override
+    @java.lang.Override
     public long initializeOffsets(long bitPosition) throws zserio.runtime.ZserioError
     {
         return bitPosition + bitSizeOf(bitPosition);
     }
     <#if usedInPackedArray>
 
-    @Override
+    @java.lang.Override
     public long initializeOffsets(zserio.runtime.array.PackingContext context, long bitPosition)
     {
         return bitPosition + bitSizeOf(context, bitPosition);
@@ -161,7 +161,7 @@ public enum ${name} implements <#if withWriterCode>zserio.runtime.io.<#if usedIn
             throw new zserio.runtime.ZserioError("Trying to write removed enumeration item '" + this + "'!");
         }
 </#macro>
-    @Override
+    @java.lang.Override
     public void write(zserio.runtime.io.BitStreamWriter out) throws java.io.IOException
     {
     <#if has_removed_items(items)>
@@ -171,7 +171,7 @@ public enum ${name} implements <#if withWriterCode>zserio.runtime.io.<#if usedIn
     }
     <#if usedInPackedArray>
 
-    @Override
+    @java.lang.Override
     public void write(zserio.runtime.array.PackingContext context, zserio.runtime.io.BitStreamWriter out)
             throws java.io.IOException
     {
diff --git a/compiler/extensions/java/freemarker/Pubsub.java.ftl b/compiler/extensions/java/freemarker/Pubsub.java.ftl
index 84aa2c7..a7675fa 100644
--- a/compiler/extensions/java/freemarker/Pubsub.java.ftl
+++ b/compiler/extensions/java/freemarker/Pubsub.java.ftl
@@ -136,7 +136,7 @@ public final class ${name}
         final zserio.runtime.pubsub.PubsubInterface.Callback onRaw =
             new zserio.runtime.pubsub.PubsubInterface.Callback()
             {
-                @Override
+                @java.lang.Override
                 public void invoke(java.lang.String topic, byte[] data)
                 {
         <#if message.typeInfo.isBytes>
diff --git a/compiler/extensions/java/freemarker/Service.java.ftl b/compiler/extensions/java/freemarker/Service.java.ftl
index 769bb32..164ffb1 100644
--- a/compiler/extensions/java/freemarker/Service.java.ftl
+++ b/compiler/extensions/java/freemarker/Service.java.ftl
@@ -53,7 +53,7 @@ public final class ${name}
             methodMap.put(<@method_name_constant_name method/>,
                 new Method()
                 {
-                    @Override
+                    @java.lang.Override
                     public zserio.runtime.service.ServiceData<? extends zserio.runtime.io.Writer> invoke(
                             byte[] requestData, java.lang.Object context) throws zserio.runtime.ZserioError
                     {
@@ -64,7 +64,7 @@ public final class ${name}
 </#list>
         }
 
-        @Override
+        @java.lang.Override
         public zserio.runtime.service.ServiceData<? extends zserio.runtime.io.Writer> callMethod(
                 java.lang.String methodName, byte[] requestData, java.lang.Object context)
                 throws zserio.runtime.ZserioError
@@ -248,7 +248,7 @@ public final class ${name}
         <#if withCodeComments>
     /** Name definition of the service method ${method.name}. */
         </#if>
-    public static final String <@method_name_constant_name method/> = "${method.name}";
+    public static final java.lang.String <@method_name_constant_name method/> = "${method.name}";
     </#list>
 </#if>
 }
diff --git a/compiler/extensions/java/freemarker/SqlDatabase.java.ftl b/compiler/extensions/java/freemarker/SqlDatabase.java.ftl
index 2f1acec..0d96965 100644
--- a/compiler/extensions/java/freemarker/SqlDatabase.java.ftl
+++ b/compiler/extensions/java/freemarker/SqlDatabase.java.ftl
@@ -139,7 +139,7 @@ public final class ${name} implements zserio.runtime.SqlDatabase<#if !withWriter
         initTables(tableToAttachedDbNameRelocationMap);
     }
 
-    @Override
+    @java.lang.Override
     public void close() throws java.sql.SQLException
     {
         if (!isExternal)
@@ -155,7 +155,7 @@ public final class ${name} implements zserio.runtime.SqlDatabase<#if !withWriter
         }
     }
 
-    @Override
+    @java.lang.Override
     public java.sql.Connection connection()
     {
         return connection;
@@ -203,7 +203,7 @@ public final class ${name} implements zserio.runtime.SqlDatabase<#if !withWriter
 </#list>
 <#if withWriterCode>
 
-    @Override
+    @java.lang.Override
     public void createSchema() throws java.sql.SQLException
     {
         final boolean wasTransactionStarted = startTransaction();
@@ -222,7 +222,7 @@ public final class ${name} implements zserio.runtime.SqlDatabase<#if !withWriter
             <#break>
         </#if>
     </#list>
-    @Override
+    @java.lang.Override
     public void createSchema(java.util.Set<java.lang.String> withoutRowIdTableNamesBlackList)
             throws java.sql.SQLException
     {
@@ -246,7 +246,7 @@ public final class ${name} implements zserio.runtime.SqlDatabase<#if !withWriter
     </#if>
     }
 
-    @Override
+    @java.lang.Override
     public void deleteSchema() throws java.sql.SQLException
     {
         final boolean wasTransactionStarted = startTransaction();
diff --git a/compiler/extensions/java/freemarker/SqlTable.java.ftl b/compiler/extensions/java/freemarker/SqlTable.java.ftl
index d4aac3d..e67116b 100644
--- a/compiler/extensions/java/freemarker/SqlTable.java.ftl
+++ b/compiler/extensions/java/freemarker/SqlTable.java.ftl
@@ -489,7 +489,7 @@ public class ${name}
         else
         {
             Arrays.fill(map, false);
-            for (String colName : colNames)
+            for (java.lang.String colName : colNames)
             {
                 int idx = -1;
                 for (int i = 0; i < columnNames.length; ++i)
diff --git a/compiler/extensions/java/freemarker/Structure.java.ftl b/compiler/extensions/java/freemarker/Structure.java.ftl
index 7a53f56..913797b 100644
--- a/compiler/extensions/java/freemarker/Structure.java.ftl
+++ b/compiler/extensions/java/freemarker/Structure.java.ftl
@@ -170,7 +170,7 @@ public class ${name} implements <#rt>
 </#if>
 <#if isPackable && usedInPackedArray>
 
-    @Override
+    @java.lang.Override
     public void initPackingContext(zserio.runtime.array.PackingContext context)
     {
     <#if uses_packing_context(fieldList)>
@@ -182,13 +182,13 @@ public class ${name} implements <#rt>
     }
 </#if>
 
-    @Override
+    @java.lang.Override
     public int bitSizeOf()
     {
         return bitSizeOf(0);
     }
 
-    @Override
+    @java.lang.Override
     public int bitSizeOf(long bitPosition)
     {
 <#if fieldList?has_content>
@@ -205,7 +205,7 @@ public class ${name} implements <#rt>
     }
 <#if isPackable && usedInPackedArray>
 
-    @Override
+    @java.lang.Override
     public int bitSizeOf(zserio.runtime.array.PackingContext context, long bitPosition)
     {
     <#if uses_packing_context(fieldList)>
@@ -348,7 +348,7 @@ public class ${name} implements <#rt>
     </#if>
 </#list>
 <@compound_functions compoundFunctionsData/>
-    @Override
+    @java.lang.Override
     public boolean equals(java.lang.Object obj)
     {
 <#if compoundParametersData.list?has_content || fieldList?has_content>
@@ -377,7 +377,7 @@ public class ${name} implements <#rt>
 </#if>
     }
 
-    @Override
+    @java.lang.Override
     public int hashCode()
     {
         int result = zserio.runtime.HashCodeUtil.HASH_SEED;
@@ -476,13 +476,13 @@ public class ${name} implements <#rt>
 </#if>
 <#if withWriterCode>
 
-    @Override
+    @java.lang.Override
     public long initializeOffsets()
     {
         return initializeOffsets(0);
     }
 
-    @Override
+    @java.lang.Override
     public long initializeOffsets(long bitPosition)
     {
     <#if fieldList?has_content>
@@ -499,7 +499,7 @@ public class ${name} implements <#rt>
     }
     <#if isPackable && usedInPackedArray>
 
-    @Override
+    @java.lang.Override
     public long initializeOffsets(zserio.runtime.array.PackingContext context, long bitPosition)
     {
         <#if uses_packing_context(fieldList)>
@@ -515,7 +515,7 @@ public class ${name} implements <#rt>
     }
     </#if>
 
-    @Override
+    @java.lang.Override
     public void write(zserio.runtime.io.BitStreamWriter out) throws java.io.IOException
     {
     <#if fieldList?has_content>
@@ -533,7 +533,7 @@ public class ${name} implements <#rt>
     }
     <#if isPackable && usedInPackedArray>
 
-    @Override
+    @java.lang.Override
     public void write(zserio.runtime.array.PackingContext context, zserio.runtime.io.BitStreamWriter out)
             throws java.io.IOException
     {
diff --git a/compiler/extensions/java/freemarker/TypeInfo.inc.ftl b/compiler/extensions/java/freemarker/TypeInfo.inc.ftl
index 232da2d..268d537 100644
--- a/compiler/extensions/java/freemarker/TypeInfo.inc.ftl
+++ b/compiler/extensions/java/freemarker/TypeInfo.inc.ftl
@@ -61,7 +61,7 @@ ${I})<#if comma>,</#if>
 ${I}class <@field_info_recursive_type_info_getter_name field/>
 ${I}        implements zserio.runtime.typeinfo.TypeInfo.RecursiveTypeInfo.TypeInfoGetter
 ${I}{
-${I}    @Override
+${I}    @java.lang.Override
 ${I}    public zserio.runtime.typeinfo.TypeInfo get()
 ${I}    {
         <#if field.array??>
diff --git a/compiler/extensions/java/freemarker/Union.java.ftl b/compiler/extensions/java/freemarker/Union.java.ftl
index b57638a..c3093cd 100644
--- a/compiler/extensions/java/freemarker/Union.java.ftl
+++ b/compiler/extensions/java/freemarker/Union.java.ftl
@@ -131,7 +131,7 @@ public class ${name} implements <#rt>
     }
 <#if isPackable && usedInPackedArray>
 
-    @Override
+    @java.lang.Override
     public void initPackingContext(zserio.runtime.array.PackingContext context)
     {
         final ZserioPackingContext zserioContext = context.cast();
@@ -152,13 +152,13 @@ public class ${name} implements <#rt>
     }
 </#if>
 
-    @Override
+    @java.lang.Override
     public int bitSizeOf()
     {
         return bitSizeOf(0);
     }
 
-    @Override
+    @java.lang.Override
     public int bitSizeOf(long bitPosition)
     {
 <#if fieldList?has_content>
@@ -184,7 +184,7 @@ public class ${name} implements <#rt>
     }
 <#if isPackable && usedInPackedArray>
 
-    @Override
+    @java.lang.Override
     public int bitSizeOf(zserio.runtime.array.PackingContext context, long bitPosition)
     {
         final ZserioPackingContext zserioContext = context.cast();
@@ -266,7 +266,7 @@ public class ${name} implements <#rt>
     </#if>
 </#list>
 <@compound_functions compoundFunctionsData/>
-    @Override
+    @java.lang.Override
     public boolean equals(java.lang.Object obj)
     {
 <#if compoundParametersData.list?has_content || fieldList?has_content>
@@ -290,7 +290,7 @@ public class ${name} implements <#rt>
 </#if>
     }
 
-    @Override
+    @java.lang.Override
     public int hashCode()
     {
         int result = zserio.runtime.HashCodeUtil.HASH_SEED;
@@ -385,13 +385,13 @@ public class ${name} implements <#rt>
 </#if>
 <#if withWriterCode>
 
-    @Override
+    @java.lang.Override
     public long initializeOffsets()
     {
         return initializeOffsets(0);
     }
 
-    @Override
+    @java.lang.Override
     public long initializeOffsets(long bitPosition)
     {
     <#if fieldList?has_content>
@@ -417,7 +417,7 @@ public class ${name} implements <#rt>
     }
     <#if isPackable && usedInPackedArray>
 
-    @Override
+    @java.lang.Override
     public long initializeOffsets(zserio.runtime.array.PackingContext context, long bitPosition)
     {
         final ZserioPackingContext zserioContext = context.cast();
@@ -442,7 +442,7 @@ public class ${name} implements <#rt>
     }
     </#if>
 
-    @Override
+    @java.lang.Override
     public void write(zserio.runtime.io.BitStreamWriter out) throws java.io.IOException
     {
     <#if fieldList?has_content>
@@ -463,7 +463,7 @@ public class ${name} implements <#rt>
     }
     <#if isPackable && usedInPackedArray>
 
-    @Override
+    @java.lang.Override
     public void write(zserio.runtime.array.PackingContext context, zserio.runtime.io.BitStreamWriter out)
             throws java.io.IOException
     {
-- 
2.43.0


From e75f66bd925c2cf0384c6ccd9cf6795354dac8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:14 +0000
Subject: [PATCH 68/89] fix: C++ StringView last-of searches from the end and
 rfind on empty views

---
 compiler/extensions/cpp/runtime/src/zserio/StringView.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/StringView.h b/compiler/extensions/cpp/runtime/src/zserio/StringView.h
index 8c28944..ccfcb4f 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/StringView.h
+++ b/compiler/extensions/cpp/runtime/src/zserio/StringView.h
@@ -457,7 +457,7 @@ public:
      */
     size_type find(BasicStringView str, size_type pos = 0) const noexcept
     {
-        if (pos >= size() || str.size() > size() - pos)
+        if (pos > size() || str.size() > size() - pos)
         {
             return npos; // the string cannot be there
         }
@@ -540,7 +540,7 @@ public:
 
         for (size_t p = std::min(static_cast<size_type>(size() - str.size()), pos) + 1; p > 0; --p)
         {
-            if (Traits::compare(data() + p - 1, str.data(), str.size()) == 0)
+            if (Traits::compare(data() + (p - 1), str.data(), str.size()) == 0)
             {
                 return p - 1;
             }
@@ -661,7 +661,7 @@ public:
             return npos;
         }
 
-        for (size_type idx = std::min(pos + 1, size()); idx > 0; --idx)
+        for (size_type idx = std::min(pos, size() - 1) + 1; idx > 0; --idx)
         {
             if (Traits::find(str.data(), str.size(), data()[idx - 1]) != nullptr)
             {
@@ -785,7 +785,7 @@ public:
             return npos;
         }
 
-        for (size_type idx = std::min(pos + 1, size()); idx > 0; --idx)
+        for (size_type idx = std::min(pos, size() - 1) + 1; idx > 0; --idx)
         {
             if (Traits::find(str.data(), str.size(), data()[idx - 1]) == nullptr)
             {
-- 
2.43.0


From 34ab4ae9a41089bb1348feac7bb3af8a9ff99ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:14 +0000
Subject: [PATCH 69/89] fix: C++ optional holder assigned from its own value

---
 .../extensions/cpp/runtime/src/zserio/OptionalHolder.h     | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/OptionalHolder.h b/compiler/extensions/cpp/runtime/src/zserio/OptionalHolder.h
index 5cb8fa2..47579bc 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/OptionalHolder.h
+++ b/compiler/extensions/cpp/runtime/src/zserio/OptionalHolder.h
@@ -515,7 +515,7 @@ private:
     template <typename U = T>
     void set(U&& val)
     {
-        reset();
+        // the value can be (a part of) the current one
         m_storage = zserio::allocate_unique<T, allocator_type>(get_allocator(), std::forward<U>(val));
     }
 
@@ -992,6 +992,11 @@ private:
     template <typename U = T>
     void set(U&& val)
     {
+        if (hasValue() && std::addressof(val) == m_storage.getObject())
+        {
+            return; // assignment of the current value
+        }
+
         reset();
         new (m_storage.getStorage()) T(std::forward<U>(val));
         m_hasValue = true;
-- 
2.43.0


From 80a2f9ce1cfad21ecccbf08b8016a691ade305f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:14 +0000
Subject: [PATCH 70/89] fix: C++ any holder leaking or corrupting its storage
 when a value throws

---
 .../cpp/runtime/src/zserio/AnyHolder.h        | 82 +++++++++++++++++--
 1 file changed, 74 insertions(+), 8 deletions(-)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/AnyHolder.h b/compiler/extensions/cpp/runtime/src/zserio/AnyHolder.h
index 723c423..8607b2a 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/AnyHolder.h
+++ b/compiler/extensions/cpp/runtime/src/zserio/AnyHolder.h
@@ -166,14 +166,30 @@ public:
     IHolder<ALLOC>* clone(const ALLOC& allocator) const override
     {
         this_type* holder = create(allocator);
-        holder->setHolder(this->getHolder());
+        try
+        {
+            holder->setHolder(this->getHolder());
+        }
+        catch (...)
+        {
+            holder->destroy(allocator);
+            throw;
+        }
         return holder;
     }
 
     IHolder<ALLOC>* clone(NoInitT, const ALLOC& allocator) const override
     {
         this_type* holder = create(allocator);
-        holder->setHolder(NoInit, this->getHolder());
+        try
+        {
+            holder->setHolder(NoInit, this->getHolder());
+        }
+        catch (...)
+        {
+            holder->destroy(allocator);
+            throw;
+        }
         return holder;
     }
 
@@ -190,14 +206,30 @@ public:
     IHolder<ALLOC>* move(const ALLOC& allocator) override
     {
         this_type* holder = create(allocator);
-        holder->setHolder(std::move(this->getHolder()));
+        try
+        {
+            holder->setHolder(std::move(this->getHolder()));
+        }
+        catch (...)
+        {
+            holder->destroy(allocator);
+            throw;
+        }
         return holder;
     }
 
     IHolder<ALLOC>* move(NoInitT, const ALLOC& allocator) override
     {
         this_type* holder = create(allocator);
-        holder->setHolder(NoInit, std::move(this->getHolder()));
+        try
+        {
+            holder->setHolder(NoInit, std::move(this->getHolder()));
+        }
+        catch (...)
+        {
+            holder->destroy(allocator);
+            throw;
+        }
         return holder;
     }
 
@@ -595,7 +627,16 @@ public:
     template <typename T>
     void set(T&& value)
     {
-        createHolder<typename std::decay<T>::type>()->set(std::forward<T>(value));
+        auto* holder = createHolder<typename std::decay<T>::type>();
+        try
+        {
+            holder->set(std::forward<T>(value));
+        }
+        catch (...)
+        {
+            clearHolder();
+            throw;
+        }
     }
 
     /**
@@ -606,7 +647,16 @@ public:
     template <typename T>
     void set(NoInitT, T&& value)
     {
-        createHolder<typename std::decay<T>::type>()->set(NoInit, std::forward<T>(value));
+        auto* holder = createHolder<typename std::decay<T>::type>();
+        try
+        {
+            holder->set(NoInit, std::forward<T>(value));
+        }
+        catch (...)
+        {
+            clearHolder();
+            throw;
+        }
     }
 
     /**
@@ -663,7 +713,15 @@ private:
     {
         if (other.m_isInPlace)
         {
-            other.getUntypedHolder()->clone(&m_untypedHolder.inPlace);
+            try
+            {
+                other.getUntypedHolder()->clone(&m_untypedHolder.inPlace);
+            }
+            catch (...)
+            {
+                m_untypedHolder.heap = nullptr; // the storage was overwritten
+                throw;
+            }
             m_isInPlace = true;
         }
         else if (other.m_untypedHolder.heap != nullptr)
@@ -680,7 +738,15 @@ private:
     {
         if (other.m_isInPlace)
         {
-            other.getUntypedHolder()->clone(NoInit, &m_untypedHolder.inPlace);
+            try
+            {
+                other.getUntypedHolder()->clone(NoInit, &m_untypedHolder.inPlace);
+            }
+            catch (...)
+            {
+                m_untypedHolder.heap = nullptr; // the storage was overwritten
+                throw;
+            }
             m_isInPlace = true;
         }
         else if (other.m_untypedHolder.heap != nullptr)
-- 
2.43.0


From d82a13f6a2ac193c7feecb7b2d6f2855e015447f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:14 +0000
Subject: [PATCH 71/89] fix: C++ float to string conversion of NaN, small
 fractions and values in (-1, 0)

---
 .../cpp/runtime/src/zserio/StringConvertUtil.h     | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/StringConvertUtil.h b/compiler/extensions/cpp/runtime/src/zserio/StringConvertUtil.h
index f41c8f6..989f5aa 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/StringConvertUtil.h
+++ b/compiler/extensions/cpp/runtime/src/zserio/StringConvertUtil.h
@@ -131,14 +131,26 @@ inline void convertFloatToString(std::array<char, 24>& integerPartBuffer,
         integerPartString = "-Inf";
         floatingPartString = nullptr;
     }
+    else if (value != value)
+    {
+        integerPartString = "NaN";
+        floatingPartString = nullptr;
+    }
     else
     {
         const int64_t integerPart = static_cast<int64_t>(value);
         const int64_t floatingPart =
                 static_cast<int64_t>((value - static_cast<float>(integerPart)) * 1e3F); // 3 digits
         const int64_t floatingPartAbs = (floatingPart < 0) ? 0 - floatingPart : floatingPart;
-        integerPartString = convertIntToString(integerPartBuffer, integerPart);
+        integerPartString = (integerPart == 0 && floatingPart < 0)
+                ? "-0"
+                : convertIntToString(integerPartBuffer, integerPart);
         floatingPartString = convertIntToString(floatingPartBuffer, floatingPartAbs);
+        if (floatingPartAbs > 0 && floatingPartAbs < 100)
+        {
+            // zeros in front of the first non-zero digit
+            floatingPartString = convertIntToString(floatingPartBuffer, 1000 + floatingPartAbs) + 1;
+        }
     }
 }
 
-- 
2.43.0


From d86a4adfbd0d1ec787bb7fca9ece78359e02bd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:15 +0000
Subject: [PATCH 72/89] fix: Python SQL tables without blobs ignoring the given
 columns

---
 .../python/freemarker/SqlTable.py.ftl         | 23 ++++---------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/compiler/extensions/python/freemarker/SqlTable.py.ftl b/compiler/extensions/python/freemarker/SqlTable.py.ftl
index f8faaa2..836ff53 100644
--- a/compiler/extensions/python/freemarker/SqlTable.py.ftl
+++ b/compiler/extensions/python/freemarker/SqlTable.py.ftl
@@ -14,17 +14,6 @@ from enum import Enum, IntEnum
         <#break>
     </#if>
 </#list>
-<#assign hasEnumField = false/>
-<#assign hasBitmaskField = false/>
-<#list fields as field>
-    <#if field.typeInfo.isEnum>
-        <#assign hasEnumField = true/>
-    </#if>
-    <#if field.typeInfo.isBitmask>
-        <#assign hasBitmaskField = true/>
-    </#if>
-</#list>
-<#assign needsRowConversion = hasBlobField || hasEnumField || hasBitmaskField/>
 <#assign needsParameterProvider = explicitParameters?has_content/>
 <#if withWriterCode>
     <#assign hasNonVirtualField=false/>
@@ -65,7 +54,7 @@ class ${name}:
 
 </#if>
         def __init__(self, <#rt>
-                <#lt>rows: typing.Iterator[<#if needsRowConversion>typing.Tuple<#else>'${name}.${rowAnnotationName}'</#if>]<#rt>
+                <#lt>rows: typing.Iterator[typing.Tuple]<#rt>
                 <#lt><#if needsParameterProvider>, parameter_provider: '${name}.IParameterProvider'</#if>,
                 column_map: typing.List[bool]
                 ) -> None:
@@ -88,9 +77,8 @@ class ${name}:
 
         def __iter__(self) -> typing.Iterator['${name}.${rowAnnotationName}']:
             for row in self._rows:
-                yield <#if needsRowConversion>self._read_row(row)<#else>row</#if>
+                yield self._read_row(row)
 
-<#if needsRowConversion>
         def _read_row(self, row: typing.Tuple) -> '${name}.${rowAnnotationName}':
             i = 0
     <#list fields as field>
@@ -122,7 +110,6 @@ class ${name}:
     </#list>
             return (<#list fields as field>${field.snakeCaseName}_<#if field?index == 0 || field?has_next>, </#if></#list>)
 
-</#if>
 <#if needsParameterProvider>
     <#macro parameter_provider_method_name parameter>
         ${parameter.expression}<#t>
@@ -307,7 +294,7 @@ class ${name}:
             cursor.execute("BEGIN")
 
         for row in rows:
-            cursor.execute(sql_query, <#if needsRowConversion>self._write_row(row, column_map)<#else>row</#if>)
+            cursor.execute(sql_query, self._write_row(row, column_map))
 
         if has_autocommit:
             cursor.execute("COMMIT")
@@ -341,7 +328,7 @@ class ${name}:
         sql_query += where_condition
 
         cursor = self._connection.cursor()
-        cursor.execute(sql_query, <#if needsRowConversion>self._write_row(row, column_map)<#else>row</#if>)
+        cursor.execute(sql_query, self._write_row(row, column_map))
 </#if>
 
     def _create_column_mapping(self, columns: typing.List[str]) -> typing.List[bool]:
@@ -397,7 +384,6 @@ class ${name}:
     </#if>
 
         return sql_query
-    <#if needsRowConversion>
 
     @staticmethod
     def _write_row(row: '${name}.${rowAnnotationName}', column_map: typing.List[bool]) -> typing.List:
@@ -429,7 +415,6 @@ class ${name}:
 
         </#list>
         return row_in_list
-    </#if>
 </#if>
 
     class _ColumnFormat(Enum):
-- 
2.43.0


From e31b0af89793c3ba5a5898627c3435b25dd4a7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:15 +0000
Subject: [PATCH 73/89] fix: Python SQL columns of 64-bit unsigned values

---
 .../python/freemarker/SqlTable.py.ftl         | 25 ++++++++++++------
 .../python/SqlTableEmitterTemplateData.java   | 26 +++++++++++++++++++
 2 files changed, 43 insertions(+), 8 deletions(-)

diff --git a/compiler/extensions/python/freemarker/SqlTable.py.ftl b/compiler/extensions/python/freemarker/SqlTable.py.ftl
index 836ff53..ba0d8ca 100644
--- a/compiler/extensions/python/freemarker/SqlTable.py.ftl
+++ b/compiler/extensions/python/freemarker/SqlTable.py.ftl
@@ -96,12 +96,18 @@ class ${name}:
                     </#if>
                 </#list>
                         <#lt>)
-            <#elseif field.typeInfo.isEnum>
+            <#else>
+                <#if field.isUnsigned64>
+                if ${field.snakeCaseName}_ is not None and ${field.snakeCaseName}_ < 0:
+                    ${field.snakeCaseName}_ += 1 << 64 # SQLite integers are signed
+                </#if>
+                <#if field.typeInfo.isEnum>
                 if ${field.snakeCaseName}_ is not None:
                     ${field.snakeCaseName}_ = ${field.typeInfo.typeFullName}(${field.snakeCaseName}_)
-            <#elseif field.typeInfo.isBitmask>
+                <#elseif field.typeInfo.isBitmask>
                 if ${field.snakeCaseName}_ is not None:
                     ${field.snakeCaseName}_ = ${field.typeInfo.typeFullName}.from_value(${field.snakeCaseName}_)
+                </#if>
             </#if>
                 i += 1
             else:
@@ -403,14 +409,17 @@ class ${name}:
                 row_in_list.append(writer.byte_array)
             else:
                 row_in_list.append(${field.snakeCaseName}_)
-            <#elseif field.typeInfo.isEnum || field.typeInfo.isBitmask>
+            <#else>
             ${field.snakeCaseName}_ = row[${field?index}]
+                <#if field.typeInfo.isEnum || field.typeInfo.isBitmask>
             if isinstance(${field.snakeCaseName}_, ${field.typeInfo.typeFullName}):
-                row_in_list.append(${field.snakeCaseName}_.value)
-            else:
-                row_in_list.append(${field.snakeCaseName}_)
-            <#else>
-            row_in_list.append(row[${field?index}])
+                ${field.snakeCaseName}_ = ${field.snakeCaseName}_.value
+                </#if>
+                <#if field.isUnsigned64>
+            if ${field.snakeCaseName}_ is not None and ${field.snakeCaseName}_ >= 1 << 63:
+                ${field.snakeCaseName}_ -= 1 << 64 # SQLite integers are signed
+                </#if>
+            row_in_list.append(${field.snakeCaseName}_)
             </#if>
 
         </#list>
diff --git a/compiler/extensions/python/src/zserio/extension/python/SqlTableEmitterTemplateData.java b/compiler/extensions/python/src/zserio/extension/python/SqlTableEmitterTemplateData.java
index 2beca15..5b2ca3e 100644
--- a/compiler/extensions/python/src/zserio/extension/python/SqlTableEmitterTemplateData.java
+++ b/compiler/extensions/python/src/zserio/extension/python/SqlTableEmitterTemplateData.java
@@ -1,14 +1,18 @@
 package zserio.extension.python;
 
+import java.math.BigInteger;
 import java.util.ArrayList;
 import java.util.List;
 import java.util.SortedSet;
 import java.util.TreeSet;
 
+import zserio.ast.BitmaskType;
 import zserio.ast.DynamicBitFieldInstantiation;
+import zserio.ast.EnumType;
 import zserio.ast.Expression;
 import zserio.ast.Field;
 import zserio.ast.FixedSizeType;
+import zserio.ast.IntegerType;
 import zserio.ast.Parameter;
 import zserio.ast.ParameterizedTypeInstantiation;
 import zserio.ast.ParameterizedTypeInstantiation.InstantiatedParameter;
@@ -16,6 +20,7 @@ import zserio.ast.SqlConstraint;
 import zserio.ast.SqlTableType;
 import zserio.ast.TypeInstantiation;
 import zserio.ast.TypeReference;
+import zserio.ast.ZserioType;
 import zserio.extension.common.ExpressionFormatter;
 import zserio.extension.common.ZserioExtensionException;
 import zserio.extension.common.sql.SqlNativeTypeMapper;
@@ -169,6 +174,7 @@ public final class SqlTableEmitterTemplateData extends UserTypeTemplateData
             upperCaseName = PythonSymbolConverter.enumItemToSymbol(name, false);
             typeInfo = new NativeTypeInfoTemplateData(nativeType, fieldTypeInstantiation);
 
+            isUnsigned64 = createIsUnsigned64(fieldTypeInstantiation);
             isVirtual = field.isVirtual();
             parameters = new ArrayList<ParameterTemplateData>();
 
@@ -218,6 +224,11 @@ public final class SqlTableEmitterTemplateData extends UserTypeTemplateData
             return typeInfo;
         }
 
+        public boolean getIsUnsigned64()
+        {
+            return isUnsigned64;
+        }
+
         public boolean getIsVirtual()
         {
             return isVirtual;
@@ -323,6 +334,20 @@ public final class SqlTableEmitterTemplateData extends UserTypeTemplateData
             private final String lambdaExpression;
         }
 
+        private static boolean createIsUnsigned64(TypeInstantiation typeInstantiation)
+        {
+            final ZserioType baseType = typeInstantiation.getBaseType();
+            if (baseType instanceof EnumType)
+                return createIsUnsigned64(((EnumType)baseType).getTypeInstantiation());
+            if (baseType instanceof BitmaskType)
+                return createIsUnsigned64(((BitmaskType)baseType).getTypeInstantiation());
+            if (!(baseType instanceof IntegerType))
+                return false;
+
+            final BigInteger upperBound = ((IntegerType)baseType).getUpperBound(typeInstantiation);
+            return upperBound.compareTo(BigInteger.valueOf(Long.MAX_VALUE)) > 0;
+        }
+
         private static String createBitSize(TypeInstantiation typeInstantiation,
                 ExpressionFormatter pythonSqlIndirectExpressionFormatter) throws ZserioExtensionException
         {
@@ -347,6 +372,7 @@ public final class SqlTableEmitterTemplateData extends UserTypeTemplateData
         private final String snakeCaseName;
         private final String upperCaseName;
         private final NativeTypeInfoTemplateData typeInfo;
+        private final boolean isUnsigned64;
         private final boolean isVirtual;
         private final List<ParameterTemplateData> parameters;
         private final String sqlConstraint;
-- 
2.43.0


From d4fe9009587b648e5c9dfc6eb97d8502dde23d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:15 +0000
Subject: [PATCH 74/89] fix: Java SQL columns of 64-bit unsigned values

---
 compiler/extensions/java/freemarker/SqlTable.java.ftl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compiler/extensions/java/freemarker/SqlTable.java.ftl b/compiler/extensions/java/freemarker/SqlTable.java.ftl
index e67116b..0a883c7 100644
--- a/compiler/extensions/java/freemarker/SqlTable.java.ftl
+++ b/compiler/extensions/java/freemarker/SqlTable.java.ftl
@@ -8,7 +8,7 @@
 </#function>
 <#macro underlying_value field valueVarName withCast>
     <#if underlying_requires_big_int(field)>
-        java.math.BigInteger.valueOf(${valueVarName})<#t>
+        new java.math.BigInteger(java.lang.Long.toUnsignedString(${valueVarName}))<#t>
     <#elseif withCast>
         (${field.underlyingTypeInfo.typeFullName})${valueVarName}<#t>
     <#else>
@@ -666,7 +666,7 @@ ${I}                (${parameter.typeInfo.typeFullName})(${parameter.expression}
     <#elseif field.typeInfo.isBitmask>
                 row.set${field.name?cap_first}(new ${field.typeInfo.typeFullName}(<@underlying_value field, valueVarName, false/>));
     <#elseif field.requiresBigInt>
-                row.set${field.name?cap_first}(java.math.BigInteger.valueOf(${valueVarName}));
+                row.set${field.name?cap_first}(new java.math.BigInteger(java.lang.Long.toUnsignedString(${valueVarName})));
     <#else>
                 row.set${field.name?cap_first}(${valueVarName});
     </#if>
@@ -947,7 +947,7 @@ ${I}                (${parameter.typeInfo.typeFullName})(${parameter.expression}
             row.set${field.name?cap_first}(
                     new ${field.typeInfo.typeFullName}(<@underlying_value field, "value", true/>));
                 <#elseif field.requiresBigInt>
-            row.set${field.name?cap_first}(java.math.BigInteger.valueOf(value));
+            row.set${field.name?cap_first}(new java.math.BigInteger(java.lang.Long.toUnsignedString(value)));
                 <#elseif field.rangeCheckData.sqlRangeData??>
             row.set${field.name?cap_first}((${field.typeInfo.typeFullName})value);
                 <#else>
-- 
2.43.0


From b5741318b19f7f9d891a84383954943a34b189cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:15 +0000
Subject: [PATCH 75/89] fix: C++ SQL reader taking blobs from a wrong column

---
 compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl b/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
index 218bc7e..9dcd320 100644
--- a/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
+++ b/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
@@ -200,8 +200,8 @@ ${name}::Row ${name}::Reader::next()
         if (sqlite3_column_type(m_stmt.get(), index) != SQLITE_NULL)
         {
         <#if field.sqlTypeData.isBlob>
-            const void* blobData = sqlite3_column_blob(m_stmt.get(), ${field?index});
-            const int blobDataLength = sqlite3_column_bytes(m_stmt.get(), ${field?index});
+            const void* blobData = sqlite3_column_blob(m_stmt.get(), index);
+            const int blobDataLength = sqlite3_column_bytes(m_stmt.get(), index);
             ::zserio::BitStreamReader reader(static_cast<const uint8_t*>(blobData),
                     static_cast<size_t>(blobDataLength));
             <@read_blob field, "m_parameterProvider"/>
-- 
2.43.0


From 631dfe0d8ece00490e44568e7c0aefd3150fb7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:15 +0000
Subject: [PATCH 76/89] fix: C++ SQL blobs of zero size stored as NULL

---
 compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl b/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
index 9dcd320..90c97e4 100644
--- a/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
+++ b/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
@@ -554,14 +554,14 @@ bool ${name}::validateBlob${field.name?cap_first}(::zserio::IValidationObserver&
         sqlite3_stmt* statement, Row& row<#rt>
         <#lt><#if field.hasExplicitParameters>, IParameterProvider& parameterProvider</#if>, bool& continueValidation)
 {
-    const void* blobData = sqlite3_column_blob(statement, ${field?index});
-    if (blobData == nullptr)
+    if (sqlite3_column_type(statement, ${field?index}) == SQLITE_NULL)
     {
         return true;
     }
 
     try
     {
+        const void* blobData = sqlite3_column_blob(statement, ${field?index});
         const int blobDataLength = sqlite3_column_bytes(statement, ${field?index});
         ::zserio::BitStreamReader reader(static_cast<const uint8_t*>(blobData),
                 static_cast<size_t>(blobDataLength));
@@ -769,8 +769,11 @@ void ${name}::writeRow(<#if needsParameterProvider>IParameterProvider& parameter
             ${types.bitBuffer.name} bitBuffer(blob.bitSizeOf(), get_allocator_ref());
             ::zserio::BitStreamWriter writer(bitBuffer);
             blob.write(writer);
-            result = sqlite3_bind_blob(&statement, index, bitBuffer.getBuffer(),
-                    static_cast<int>(bitBuffer.getByteSize()), SQLITE_TRANSIENT);
+            <#-- buffer of an empty blob may be a null pointer which would be stored as NULL -->
+            result = (bitBuffer.getByteSize() == 0)
+                    ? sqlite3_bind_zeroblob(&statement, index, 0)
+                    : sqlite3_bind_blob(&statement, index, bitBuffer.getBuffer(),
+                            static_cast<int>(bitBuffer.getByteSize()), SQLITE_TRANSIENT);
             <#elseif field.sqlTypeData.isInteger>
             const int64_t intValue = static_cast<int64_t>(row.${field.getterName}()<#if field.typeInfo.isBitmask>.getValue()</#if>);
             result = sqlite3_bind_int64(&statement, index, intValue);
-- 
2.43.0


From 46dfe5eb2347b3c9fc13d2a51af78dbcf2c99f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:15 +0000
Subject: [PATCH 77/89] fix: validation of primary keys in WITHOUT ROWID tables

---
 compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl   | 3 +++
 compiler/extensions/java/freemarker/SqlTable.java.ftl | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl b/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
index 90c97e4..30ab8af 100644
--- a/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
+++ b/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
@@ -475,6 +475,8 @@ bool ${name}::validateColumn${field.name?cap_first}(::zserio::IValidationObserve
         return false;
     }
 
+            <#-- primary key of WITHOUT ROWID table is implicitly NOT NULL -->
+            <#if field.isNotNull || !field.isPrimaryKey || !isWithoutRowId>
     if (<#if field.isNotNull>!</#if>column.isNotNull)
     {
         continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("${field.name}"),
@@ -486,6 +488,7 @@ bool ${name}::validateColumn${field.name?cap_first}(::zserio::IValidationObserve
         return false;
     }
 
+            </#if>
     if (<#if field.isPrimaryKey>!</#if>column.isPrimaryKey)
     {
         continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("${field.name}"),
diff --git a/compiler/extensions/java/freemarker/SqlTable.java.ftl b/compiler/extensions/java/freemarker/SqlTable.java.ftl
index 0a883c7..821bf59 100644
--- a/compiler/extensions/java/freemarker/SqlTable.java.ftl
+++ b/compiler/extensions/java/freemarker/SqlTable.java.ftl
@@ -783,6 +783,8 @@ ${I}                (${parameter.typeInfo.typeFullName})(${parameter.expression}
             return false;
         }
 
+            <#-- primary key of WITHOUT ROWID table is implicitly NOT NULL -->
+            <#if field.isNotNull || !field.isPrimaryKey || !isWithoutRowId>
         if (<#if field.isNotNull>!</#if>column.isNotNull())
         {
             errors.add(new zserio.runtime.validation.ValidationError(tableName, "${field.name}",
@@ -792,6 +794,7 @@ ${I}                (${parameter.typeInfo.typeFullName})(${parameter.expression}
             return false;
         }
 
+            </#if>
         if (<#if field.isPrimaryKey>!</#if>column.isPrimaryKey())
         {
             errors.add(new zserio.runtime.validation.ValidationError(tableName, "${field.name}",
-- 
2.43.0


From 94d5fe4e32ccb3d3c37a8d551b29c104bcac4846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:15 +0000
Subject: [PATCH 78/89] fix: Java validation of blobs with float32 and float64
 NaN

---
 .../validation/ValidationBitStreamReader.java | 49 ++++++++++++++++---
 1 file changed, 43 insertions(+), 6 deletions(-)

diff --git a/compiler/extensions/java/runtime/src/zserio/runtime/validation/ValidationBitStreamReader.java b/compiler/extensions/java/runtime/src/zserio/runtime/validation/ValidationBitStreamReader.java
index 1db970d..36f210c 100644
--- a/compiler/extensions/java/runtime/src/zserio/runtime/validation/ValidationBitStreamReader.java
+++ b/compiler/extensions/java/runtime/src/zserio/runtime/validation/ValidationBitStreamReader.java
@@ -108,12 +108,44 @@ public final class ValidationBitStreamReader extends ByteArrayBitStreamReader
         {
             modifyMaskBuffer(startBytePosition, startBitOffset, getBytePosition(), getBitOffset(),
                     invalidMaskBufferSetter);
-            setNanMaskBuffer(startBytePosition, startBitOffset);
+            setNanMaskBuffer(startBytePosition, startBitOffset, FLOAT16_NAN_HIGH_BITS);
         }
 
         return readFloat;
     }
 
+    @Override
+    public float readFloat32() throws IOException
+    {
+        final int startBytePosition = getBytePosition();
+        final int startBitOffset = getBitOffset();
+        final float readFloat = super.readFloat32();
+        if (Float.isNaN(readFloat))
+        {
+            modifyMaskBuffer(startBytePosition, startBitOffset, getBytePosition(), getBitOffset(),
+                    invalidMaskBufferSetter);
+            setNanMaskBuffer(startBytePosition, startBitOffset, FLOAT32_NAN_HIGH_BITS);
+        }
+
+        return readFloat;
+    }
+
+    @Override
+    public double readFloat64() throws IOException
+    {
+        final int startBytePosition = getBytePosition();
+        final int startBitOffset = getBitOffset();
+        final double readDouble = super.readFloat64();
+        if (Double.isNaN(readDouble))
+        {
+            modifyMaskBuffer(startBytePosition, startBitOffset, getBytePosition(), getBitOffset(),
+                    invalidMaskBufferSetter);
+            setNanMaskBuffer(startBytePosition, startBitOffset, FLOAT64_NAN_HIGH_BITS);
+        }
+
+        return readDouble;
+    }
+
     private void modifyMaskBuffer(int startBytePosition, int startBitOffset, int endBytePosition,
             int endBitOffset, MaskBufferAction action) throws IOException
     {
@@ -133,13 +165,13 @@ public final class ValidationBitStreamReader extends ByteArrayBitStreamReader
         }
     }
 
-    private void setNanMaskBuffer(int startBytePosition, int startBitOffset)
+    private void setNanMaskBuffer(int startBytePosition, int startBitOffset, int nanHighBits)
     {
-        // set NaN used by writer (0x7E00) to nanMaskBuffer
-        final byte nanHighByte = (byte)0x7E;
-        nanMaskBuffer[startBytePosition] |= (byte)(nanHighByte >> startBitOffset);
+        // set NaN used by writer to nanMaskBuffer (all bits after the highest two bytes are zero)
+        nanMaskBuffer[startBytePosition] |= (byte)(nanHighBits >> (8 + startBitOffset));
+        nanMaskBuffer[startBytePosition + 1] |= (byte)(nanHighBits >> startBitOffset);
         if (startBitOffset != 0)
-            nanMaskBuffer[startBytePosition + 1] |= (byte)(nanHighByte << (8 - startBitOffset));
+            nanMaskBuffer[startBytePosition + 2] |= (byte)(nanHighBits << (8 - startBitOffset));
     }
 
     private interface MaskBufferAction
@@ -200,6 +232,11 @@ public final class ValidationBitStreamReader extends ByteArrayBitStreamReader
         private final byte[] maskBuffer;
     }
 
+    // highest two bytes of NaN used by writer
+    private static final int FLOAT16_NAN_HIGH_BITS = 0x7E00;
+    private static final int FLOAT32_NAN_HIGH_BITS = 0x7FC0;
+    private static final int FLOAT64_NAN_HIGH_BITS = 0x7FF8;
+
     private final byte[] invalidMaskBuffer;
     private final MaskBufferEraser invalidMaskBufferEraser;
     private final MaskBufferSetter invalidMaskBufferSetter;
-- 
2.43.0


From 14e4a2f04e5e51b35d9a9d0c467b7522face8704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:54 +0000
Subject: [PATCH 79/89] fix: C++ JSON encoder wrote some large floating point
 values without decimal point

---
 .../extensions/cpp/runtime/src/zserio/JsonEncoder.cpp     | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/JsonEncoder.cpp b/compiler/extensions/cpp/runtime/src/zserio/JsonEncoder.cpp
index ae8bfef..1317189 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/JsonEncoder.cpp
+++ b/compiler/extensions/cpp/runtime/src/zserio/JsonEncoder.cpp
@@ -64,14 +64,16 @@ void JsonEncoder::encodeFloatingPoint(std::ostream& stream, double value)
     {
         double intPart = 1e16;
         const double fractPart = std::modf(value, &intPart);
-        // trying to get closer to behavior of Python
-        if (fractPart == 0.0 && intPart > -1e16 && intPart < 1e16)
+        const int precision = getFloatingPointPrecision(value);
+        // trying to get closer to behavior of Python, an integral number must never be without decimal point
+        const double limit = (precision > 16) ? 1e17 : 1e16;
+        if (fractPart == 0.0 && intPart > -limit && intPart < limit)
         {
             stream << std::fixed << std::setprecision(1) << value << std::defaultfloat;
         }
         else
         {
-            stream << std::setprecision(getFloatingPointPrecision(value)) << value << std::defaultfloat;
+            stream << std::setprecision(precision) << value << std::defaultfloat;
         }
     }
 }
-- 
2.43.0


From 845d95f8b221d0bdf2242bfa995dfea35a709a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:40 +0000
Subject: [PATCH 80/89] fix: RegexWalkFilter did not enter arrays when the
 expression matches the path of an element itself

---
 compiler/extensions/cpp/runtime/src/zserio/Walker.h          | 5 +++++
 .../runtime/src/zserio/runtime/walker/RegexWalkFilter.java   | 2 ++
 compiler/extensions/python/runtime/src/zserio/walker.py      | 2 ++
 3 files changed, 9 insertions(+)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/Walker.h b/compiler/extensions/cpp/runtime/src/zserio/Walker.h
index 6493ec4..0fab3b6 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/Walker.h
+++ b/compiler/extensions/cpp/runtime/src/zserio/Walker.h
@@ -779,6 +779,11 @@ bool BasicRegexWalkFilter<ALLOC>::beforeArray(
         m_currentPath.back() =
                 toString(fieldInfo.schemaName, m_allocator) + "[" + toString(i, m_allocator) + "]";
 
+        if (std::regex_match(getCurrentPath(), m_pathRegex))
+        {
+            return true; // the element itself matches
+        }
+
         if (matchSubtree(array->at(i), fieldInfo))
         {
             return true;
diff --git a/compiler/extensions/java/runtime/src/zserio/runtime/walker/RegexWalkFilter.java b/compiler/extensions/java/runtime/src/zserio/runtime/walker/RegexWalkFilter.java
index c26f4f7..cc1f6c6 100644
--- a/compiler/extensions/java/runtime/src/zserio/runtime/walker/RegexWalkFilter.java
+++ b/compiler/extensions/java/runtime/src/zserio/runtime/walker/RegexWalkFilter.java
@@ -41,6 +41,8 @@ public final class RegexWalkFilter implements WalkFilter
         for (int i = 0; i < length; ++i)
         {
             currentPath.set(currentPath.size() - 1, fieldInfo.getSchemaName() + "[" + i + "]");
+            if (Pattern.matches(pathRegex, getCurrentPath()))
+                return true; // the element itself matches
             final Object element = Array.get(array, i);
             if (matchSubtree(element, fieldInfo))
                 return true;
diff --git a/compiler/extensions/python/runtime/src/zserio/walker.py b/compiler/extensions/python/runtime/src/zserio/walker.py
index 5feb0de..727474e 100644
--- a/compiler/extensions/python/runtime/src/zserio/walker.py
+++ b/compiler/extensions/python/runtime/src/zserio/walker.py
@@ -476,6 +476,8 @@ class RegexWalkFilter(WalkFilter):
         # (note that array is never None)
         for i, element in enumerate(array):
             self._current_path[-1] = member_info.schema_name + f"[{i}]"
+            if self._path_regex.match(self._get_current_path()):
+                return True  # the element itself matches
             if self._match_subtree(element, member_info):
                 return True
         self._current_path[-1] = member_info.schema_name
-- 
2.43.0


From 05639d7cc07db45be8fec5d450e70e8bf7719ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:40 +0000
Subject: [PATCH 81/89] fix: big integer flag of valueof, of conditional
 expressions of constants and of negations

---
 compiler/core/src/zserio/ast/Expression.java  | 65 +++++++++++++------
 .../zserio/ast/ExpressionIntegerValue.java    |  3 +-
 2 files changed, 48 insertions(+), 20 deletions(-)

diff --git a/compiler/core/src/zserio/ast/Expression.java b/compiler/core/src/zserio/ast/Expression.java
index df1ccef..d13d141 100644
--- a/compiler/core/src/zserio/ast/Expression.java
+++ b/compiler/core/src/zserio/ast/Expression.java
@@ -1349,6 +1349,23 @@ public final class Expression extends AstNodeBase
 
         expressionType = ExpressionType.INTEGER;
         expressionIntegerValue = operand1.expressionIntegerValue;
+
+        // needsBigInteger must be according to underlying type
+        if (operand1.zserioType instanceof EnumType)
+            evaluateNeedsBigInteger(((EnumType)operand1.zserioType).getTypeInstantiation());
+        else if (operand1.zserioType instanceof BitmaskType)
+            evaluateNeedsBigInteger(((BitmaskType)operand1.zserioType).getTypeInstantiation());
+    }
+
+    private void evaluateNeedsBigInteger(TypeInstantiation typeInstantiation)
+    {
+        if (typeInstantiation.getBaseType() instanceof IntegerType)
+        {
+            expressionIntegerValue = new ExpressionIntegerValue(expressionIntegerValue.getValue(),
+                    expressionIntegerValue.getLowerBound(), expressionIntegerValue.getUpperBound(),
+                    createIntegerValue((IntegerType)typeInstantiation.getBaseType(), typeInstantiation)
+                            .needsBigInteger());
+        }
     }
 
     private void evaluateNumBitsOperator()
@@ -1378,6 +1395,14 @@ public final class Expression extends AstNodeBase
         {
             expressionIntegerValue =
                     (isNegate) ? operand1.expressionIntegerValue.negate() : operand1.expressionIntegerValue;
+
+            // operand which is mapped to big integer stays big integer (only negated literal can fit native type)
+            final boolean isLiteral = operand1.operand1 == null && operand1.symbolObject == null;
+            if (operand1.expressionIntegerValue.needsBigInteger() && !isLiteral)
+            {
+                expressionIntegerValue = new ExpressionIntegerValue(expressionIntegerValue.getValue(),
+                        expressionIntegerValue.getLowerBound(), expressionIntegerValue.getUpperBound(), true);
+            }
         }
     }
 
@@ -1870,25 +1895,7 @@ public final class Expression extends AstNodeBase
         {
             expressionType = ExpressionType.INTEGER;
             final IntegerType integerType = (IntegerType)baseType;
-            if (symbolInstantiation instanceof DynamicBitFieldInstantiation)
-            {
-                final DynamicBitFieldInstantiation dynamicBitFieldInstantiation =
-                        (DynamicBitFieldInstantiation)symbolInstantiation;
-
-                // call evaluation explicitly because this length does not have to be evaluated yet
-                final ZserioAstEvaluator evaluator = new ZserioAstEvaluator();
-                dynamicBitFieldInstantiation.accept(evaluator);
-                final BigInteger lowerBound = dynamicBitFieldInstantiation.getLowerBound();
-                final BigInteger upperBound = dynamicBitFieldInstantiation.getUpperBound();
-                expressionIntegerValue = new ExpressionIntegerValue(lowerBound, upperBound);
-            }
-            else
-            {
-                // unknown instantiation, get the type's fixed limits
-                final BigInteger lowerBound = integerType.getLowerBound();
-                final BigInteger upperBound = integerType.getUpperBound();
-                expressionIntegerValue = new ExpressionIntegerValue(lowerBound, upperBound);
-            }
+            expressionIntegerValue = createIntegerValue(integerType, symbolInstantiation);
         }
         else if (baseType instanceof FloatType)
         {
@@ -1926,6 +1933,26 @@ public final class Expression extends AstNodeBase
         zserioType = baseType;
     }
 
+    private static ExpressionIntegerValue createIntegerValue(
+            IntegerType integerType, TypeInstantiation typeInstantiation)
+    {
+        if (typeInstantiation instanceof DynamicBitFieldInstantiation)
+        {
+            final DynamicBitFieldInstantiation dynamicBitFieldInstantiation =
+                    (DynamicBitFieldInstantiation)typeInstantiation;
+
+            // call evaluation explicitly because this length does not have to be evaluated yet
+            final ZserioAstEvaluator evaluator = new ZserioAstEvaluator();
+            dynamicBitFieldInstantiation.accept(evaluator);
+
+            return new ExpressionIntegerValue(dynamicBitFieldInstantiation.getLowerBound(),
+                    dynamicBitFieldInstantiation.getUpperBound());
+        }
+
+        // unknown instantiation, get the type's fixed limits
+        return new ExpressionIntegerValue(integerType.getLowerBound(), integerType.getUpperBound());
+    }
+
     private ZserioType getBaseType(ZserioType type)
     {
         if (type instanceof Subtype)
diff --git a/compiler/core/src/zserio/ast/ExpressionIntegerValue.java b/compiler/core/src/zserio/ast/ExpressionIntegerValue.java
index 26393d5..9ad6630 100644
--- a/compiler/core/src/zserio/ast/ExpressionIntegerValue.java
+++ b/compiler/core/src/zserio/ast/ExpressionIntegerValue.java
@@ -445,7 +445,8 @@ final class ExpressionIntegerValue
     public ExpressionIntegerValue conditional(ExpressionIntegerValue operand)
     {
         if (value != null && operand.value != null)
-            return new ExpressionIntegerValue(value.min(operand.value), value.max(operand.value));
+            return new ExpressionIntegerValue(value.min(operand.value), value.max(operand.value),
+                    needsBigInteger || operand.needsBigInteger);
 
         final boolean newNeedsBigInteger = needsBigInteger || operand.needsBigInteger;
         if (lowerBound != null && upperBound != null && operand.lowerBound != null &&
-- 
2.43.0


From c6fe2f442e2d65b1e810856515334d2392fdda28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:40 +0000
Subject: [PATCH 82/89] fix: valueof and lengthof applied on conditional
 expressions

---
 .../extension/cpp/CppExpressionFormattingPolicy.java  |  4 +++-
 .../java/JavaDefaultExpressionFormattingPolicy.java   | 11 +++++++++--
 .../python/PythonExpressionFormattingPolicy.java      |  4 +++-
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/compiler/extensions/cpp/src/zserio/extension/cpp/CppExpressionFormattingPolicy.java b/compiler/extensions/cpp/src/zserio/extension/cpp/CppExpressionFormattingPolicy.java
index 6abad3d..d353384 100644
--- a/compiler/extensions/cpp/src/zserio/extension/cpp/CppExpressionFormattingPolicy.java
+++ b/compiler/extensions/cpp/src/zserio/extension/cpp/CppExpressionFormattingPolicy.java
@@ -179,7 +179,9 @@ public class CppExpressionFormattingPolicy extends DefaultExpressionFormattingPo
     @Override
     public UnaryExpressionFormatting getLengthOf(Expression expr)
     {
-        return new UnaryExpressionFormatting("", ".size()");
+        // conditional expression has lower precedence than member access
+        return (expr.op1().op3() != null) ? new UnaryExpressionFormatting("(", ").size()")
+                                          : new UnaryExpressionFormatting("", ".size()");
     }
 
     @Override
diff --git a/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java b/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java
index 8c5cb20..b56eabb 100644
--- a/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java
+++ b/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java
@@ -234,14 +234,14 @@ public abstract class JavaDefaultExpressionFormattingPolicy extends DefaultExpre
         }
         else
         {
-            return new UnaryExpressionFormatting("", ".length");
+            return getMemberOf(expr.op1(), ".length");
         }
     }
 
     @Override
     public UnaryExpressionFormatting getValueOf(Expression expr)
     {
-        return new UnaryExpressionFormatting("", ".getValue()");
+        return getMemberOf(expr.op1(), ".getValue()");
     }
 
     @Override
@@ -591,6 +591,13 @@ public abstract class JavaDefaultExpressionFormattingPolicy extends DefaultExpre
         result.append(nativeSymbol.getFullName());
     }
 
+    private static UnaryExpressionFormatting getMemberOf(Expression operand, String member)
+    {
+        // conditional expression has lower precedence than member access
+        return (operand.op3() != null) ? new UnaryExpressionFormatting("(", ")" + member)
+                                       : new UnaryExpressionFormatting("", member);
+    }
+
     private static boolean needsBigIntegerLiteral(Expression expr, BigInteger literalValue, boolean isNegative)
     {
         // special work around for INT64_MIN, this value is not mapped to BigInteger
diff --git a/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java b/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
index b140113..6052b2e 100644
--- a/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
+++ b/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
@@ -200,7 +200,9 @@ class PythonExpressionFormattingPolicy implements ExpressionFormattingPolicy
     {
         if (expr.op1().getExprType() == Expression.ExpressionType.ENUM)
         {
-            return new UnaryExpressionFormatting("", ".value");
+            // conditional expression has lower precedence than member access
+            return (expr.op1().op3() != null) ? new UnaryExpressionFormatting("(", ").value")
+                                              : new UnaryExpressionFormatting("", ".value");
         }
         else if (expr.op1().getExprType() == Expression.ExpressionType.BITMASK)
         {
-- 
2.43.0


From df3b385c813c8b50179b6ddd5da29eb2b58f33a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:40 +0000
Subject: [PATCH 83/89] fix: Java constants and default values of types
 narrower than their expression did not compile

---
 .../java/CompoundFieldTemplateData.java       |  8 ++--
 .../java/ConstEmitterTemplateData.java        |  3 +-
 .../java/NarrowingCastFormatter.java          | 45 +++++++++++++++++++
 3 files changed, 52 insertions(+), 4 deletions(-)
 create mode 100644 compiler/extensions/java/src/zserio/extension/java/NarrowingCastFormatter.java

diff --git a/compiler/extensions/java/src/zserio/extension/java/CompoundFieldTemplateData.java b/compiler/extensions/java/src/zserio/extension/java/CompoundFieldTemplateData.java
index ca15e04..de8b2d4 100644
--- a/compiler/extensions/java/src/zserio/extension/java/CompoundFieldTemplateData.java
+++ b/compiler/extensions/java/src/zserio/extension/java/CompoundFieldTemplateData.java
@@ -59,7 +59,7 @@ public final class CompoundFieldTemplateData
                 fieldTypeInstantiation, isTypeNullable, javaExpressionFormatter);
 
         alignmentValue = createAlignmentValue(field, javaExpressionFormatter);
-        initializer = createInitializer(field, javaExpressionFormatter);
+        initializer = createInitializer(field, nativeType, javaExpressionFormatter);
 
         usesObjectChoice = (parentType instanceof ChoiceType) || (parentType instanceof UnionType);
 
@@ -524,14 +524,16 @@ public final class CompoundFieldTemplateData
         return new Optional(field, javaExpressionFormatter, javaLambdaExpressionFormatter, isRecursive);
     }
 
-    private static String createInitializer(Field field, ExpressionFormatter javaExpressionFormatter)
+    private static String createInitializer(
+            Field field, JavaNativeType nativeType, ExpressionFormatter javaExpressionFormatter)
             throws ZserioExtensionException
     {
         final Expression initializerExpression = field.getInitializerExpr();
         if (initializerExpression == null)
             return null;
 
-        return javaExpressionFormatter.formatGetter(initializerExpression);
+        return NarrowingCastFormatter.format(
+                nativeType, initializerExpression, javaExpressionFormatter.formatGetter(initializerExpression));
     }
 
     private static String createAlignmentValue(Field field, ExpressionFormatter javaExpressionFormatter)
diff --git a/compiler/extensions/java/src/zserio/extension/java/ConstEmitterTemplateData.java b/compiler/extensions/java/src/zserio/extension/java/ConstEmitterTemplateData.java
index 37c5ffe..89e37f6 100644
--- a/compiler/extensions/java/src/zserio/extension/java/ConstEmitterTemplateData.java
+++ b/compiler/extensions/java/src/zserio/extension/java/ConstEmitterTemplateData.java
@@ -28,7 +28,8 @@ public final class ConstEmitterTemplateData extends JavaTemplateData
         final JavaNativeType nativeTargetType = javaNativeMapper.getJavaType(typeInstantiation);
         typeInfo = new NativeTypeInfoTemplateData(nativeTargetType, typeInstantiation);
 
-        value = javaExpressionFormatter.formatGetter(constant.getValueExpression());
+        value = NarrowingCastFormatter.format(nativeTargetType, constant.getValueExpression(),
+                javaExpressionFormatter.formatGetter(constant.getValueExpression()));
 
         docComments = DocCommentsDataCreator.createData(context, constant);
     }
diff --git a/compiler/extensions/java/src/zserio/extension/java/NarrowingCastFormatter.java b/compiler/extensions/java/src/zserio/extension/java/NarrowingCastFormatter.java
new file mode 100644
index 0000000..a16d265
--- /dev/null
+++ b/compiler/extensions/java/src/zserio/extension/java/NarrowingCastFormatter.java
@@ -0,0 +1,45 @@
+package zserio.extension.java;
+
+import zserio.ast.Expression;
+import zserio.extension.java.types.JavaNativeType;
+import zserio.extension.java.types.NativeByteType;
+import zserio.extension.java.types.NativeFloatType;
+import zserio.extension.java.types.NativeIntType;
+import zserio.extension.java.types.NativeShortType;
+
+/**
+ * Formats cast of expressions which are assigned to a type narrower than the type of Java expression.
+ */
+final class NarrowingCastFormatter
+{
+    /**
+     * Formats given value with the cast to the given type if such cast can be necessary.
+     *
+     * @param nativeType Type to which the value is assigned.
+     * @param expression Expression of the value.
+     * @param value Formatted expression.
+     *
+     * @return Formatted expression including the cast.
+     */
+    static String format(JavaNativeType nativeType, Expression expression, String value)
+    {
+        final boolean isLiteral = expression.op1() == null && expression.getExprSymbolObject() == null;
+        final String castType = isLiteral ? null : getCastType(nativeType);
+
+        return (castType == null) ? value : "(" + castType + ")(" + value + ")";
+    }
+
+    private static String getCastType(JavaNativeType nativeType)
+    {
+        if (nativeType instanceof NativeByteType)
+            return "byte";
+        if (nativeType instanceof NativeShortType)
+            return "short";
+        if (nativeType instanceof NativeIntType)
+            return "int";
+        if (nativeType instanceof NativeFloatType)
+            return "float";
+
+        return null;
+    }
+}
-- 
2.43.0


From ced9ef0bf19fc97fb34301bc0887a21675f418d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:40 +0000
Subject: [PATCH 84/89] fix: C++ constants which use numbits or isset did not
 compile

---
 .../runtime/src/zserio/BuiltInOperators.cpp   | 28 -------------------
 .../cpp/runtime/src/zserio/BuiltInOperators.h | 18 ++++++++++--
 2 files changed, 16 insertions(+), 30 deletions(-)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/BuiltInOperators.cpp b/compiler/extensions/cpp/runtime/src/zserio/BuiltInOperators.cpp
index ef8f698..155dd7c 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/BuiltInOperators.cpp
+++ b/compiler/extensions/cpp/runtime/src/zserio/BuiltInOperators.cpp
@@ -1,29 +1 @@
 #include "zserio/BuiltInOperators.h"
-
-namespace zserio
-{
-
-namespace builtin
-{
-
-uint8_t numBits(uint64_t numValues)
-{
-    if (numValues == 0)
-    {
-        return 0;
-    }
-
-    uint8_t result = 1;
-    uint64_t current = (numValues - 1U) >> 1U;
-    while (current > 0)
-    {
-        result++;
-        current >>= 1U;
-    }
-
-    return result;
-}
-
-} // namespace builtin
-
-} // namespace zserio
diff --git a/compiler/extensions/cpp/runtime/src/zserio/BuiltInOperators.h b/compiler/extensions/cpp/runtime/src/zserio/BuiltInOperators.h
index 8365891..62e75b8 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/BuiltInOperators.h
+++ b/compiler/extensions/cpp/runtime/src/zserio/BuiltInOperators.h
@@ -20,11 +20,22 @@ namespace builtin
  * \return True when the requiredMask is set within the bitmaskValue, false otherwise.
  */
 template <typename BITMASK1, typename BITMASK2>
-bool isSet(BITMASK1 bitmaskValue, BITMASK2 requiredMask)
+constexpr bool isSet(BITMASK1 bitmaskValue, BITMASK2 requiredMask)
 {
     return (bitmaskValue & requiredMask) == requiredMask;
 }
 
+namespace detail
+{
+
+// recursion is used because C++11 constexpr function must consist of single return statement
+constexpr uint8_t numBits(uint64_t maxValue, uint8_t result)
+{
+    return (maxValue == 0) ? result : numBits(maxValue >> 1U, static_cast<uint8_t>(result + 1));
+}
+
+} // namespace detail
+
 /**
  * Gets the minimum number of bits required to encode <tt>numValues</tt> different values.
  *
@@ -45,7 +56,10 @@ bool isSet(BITMASK1 bitmaskValue, BITMASK2 requiredMask)
  *
  * \return Number of bis required to encode <tt>numValues</tt> different values.
  */
-uint8_t numBits(uint64_t numValues);
+constexpr uint8_t numBits(uint64_t numValues)
+{
+    return (numValues == 0) ? 0 : detail::numBits((numValues - 1U) >> 1U, 1);
+}
 
 } // namespace builtin
 
-- 
2.43.0


From 7c010b02a5fb7f115c8fd0540242b5d5d98eb560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:40 +0000
Subject: [PATCH 85/89] fix: Java enumerations with an item called value did
 not compile

---
 .../java/freemarker/Enumeration.java.ftl      | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/compiler/extensions/java/freemarker/Enumeration.java.ftl b/compiler/extensions/java/freemarker/Enumeration.java.ftl
index 48b95e1..b17bb6d 100644
--- a/compiler/extensions/java/freemarker/Enumeration.java.ftl
+++ b/compiler/extensions/java/freemarker/Enumeration.java.ftl
@@ -30,7 +30,7 @@ public enum ${name} implements <#if withWriterCode>zserio.runtime.io.<#if usedIn
 
     private ${name}(${underlyingTypeInfo.typeFullName} value)
     {
-        this.value = value;
+        this.value$ = value;
     }
 
 <#if withCodeComments>
@@ -42,13 +42,13 @@ public enum ${name} implements <#if withWriterCode>zserio.runtime.io.<#if usedIn
 </#if>
     public ${underlyingTypeInfo.typeFullName} getValue()
     {
-        return value;
+        return value$;
     }
 
     @java.lang.Override
     public java.lang.Number getGenericValue()
     {
-        return value;
+        return value$;
     }
 <#if withTypeInfoCode>
 
@@ -82,7 +82,7 @@ public enum ${name} implements <#if withWriterCode>zserio.runtime.io.<#if usedIn
         final zserio.runtime.array.DeltaContext deltaContext = context.cast();
         deltaContext.init(
                 <@enum_array_traits underlyingTypeInfo.arrayableInfo, bitSize!/>,
-                new ${underlyingTypeInfo.arrayableInfo.arrayElement}(value));
+                new ${underlyingTypeInfo.arrayableInfo.arrayElement}(value$));
     }
 </#if>
 
@@ -98,7 +98,7 @@ public enum ${name} implements <#if withWriterCode>zserio.runtime.io.<#if usedIn
 <#if bitSize??>
         return ${bitSize.value};
 <#else>
-        return zserio.runtime.BitSizeOfCalculator.getBitSizeOf${runtimeFunction.suffix}(value);
+        return zserio.runtime.BitSizeOfCalculator.getBitSizeOf${runtimeFunction.suffix}(value$);
 </#if>
     }
 <#if usedInPackedArray>
@@ -109,7 +109,7 @@ public enum ${name} implements <#if withWriterCode>zserio.runtime.io.<#if usedIn
         final zserio.runtime.array.DeltaContext deltaContext = context.cast();
         return deltaContext.bitSizeOf(
                 <@enum_array_traits underlyingTypeInfo.arrayableInfo, bitSize!/>,
-                new ${underlyingTypeInfo.arrayableInfo.arrayElement}(value));
+                new ${underlyingTypeInfo.arrayableInfo.arrayElement}(value$));
     }
 </#if>
 <#if withWriterCode>
@@ -181,7 +181,7 @@ public enum ${name} implements <#if withWriterCode>zserio.runtime.io.<#if usedIn
     </#if>
         deltaContext.write(
                 <@enum_array_traits underlyingTypeInfo.arrayableInfo, bitSize!/>, out,
-                new ${underlyingTypeInfo.arrayableInfo.arrayElement}(value));
+                new ${underlyingTypeInfo.arrayableInfo.arrayElement}(value$));
     }
     </#if>
 
@@ -243,7 +243,7 @@ public enum ${name} implements <#if withWriterCode>zserio.runtime.io.<#if usedIn
         <#else>
         if (value == ${item.value})
         </#if>
-            return ${item.name};
+            return ${name}.${item.name};
     </#list>
 
         throw new java.lang.IllegalArgumentException("Unknown value for enumeration ${name}: " + value + "!");
@@ -252,7 +252,7 @@ public enum ${name} implements <#if withWriterCode>zserio.runtime.io.<#if usedIn
         {
     <#list items as item>
             case ${item.value}:
-                return ${item.name};
+                return ${name}.${item.name};
     </#list>
             default:
                 throw new java.lang.IllegalArgumentException(
@@ -274,11 +274,11 @@ public enum ${name} implements <#if withWriterCode>zserio.runtime.io.<#if usedIn
     {
 <#list items as item>
         if (itemName.equals("${item.name}"))
-            return ${item.name};
+            return ${name}.${item.name};
 </#list>
         throw new java.lang.IllegalArgumentException(
                 "Enum item '" + itemName + "' doesn't exist in enumeration ${name}!");
     }
 
-    private ${underlyingTypeInfo.typeFullName} value;
+    private ${underlyingTypeInfo.typeFullName} value$;
 }
-- 
2.43.0


From d3d29e81d403762bbabbe26185b7681487e7f9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:45 +0000
Subject: [PATCH 86/89] fix: Java choice case labels which are constants or
 expressions of a wider type than the selector did not compile

---
 .../java/ChoiceEmitterTemplateData.java       | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/compiler/extensions/java/src/zserio/extension/java/ChoiceEmitterTemplateData.java b/compiler/extensions/java/src/zserio/extension/java/ChoiceEmitterTemplateData.java
index 77148fe..ab265f8 100644
--- a/compiler/extensions/java/src/zserio/extension/java/ChoiceEmitterTemplateData.java
+++ b/compiler/extensions/java/src/zserio/extension/java/ChoiceEmitterTemplateData.java
@@ -33,8 +33,10 @@ public final class ChoiceEmitterTemplateData extends CompoundTypeTemplateData
         isSelectorExpressionBoolean = expression.getExprType() == Expression.ExpressionType.BOOLEAN;
         final BigInteger selectorUpperBound = expression.getIntegerUpperBound();
         isSelectorExpressionBigInteger = expression.needsBigInteger();
-        isSelectorExpressionLong = (isSelectorExpressionBigInteger == false && selectorUpperBound != null &&
-                selectorUpperBound.compareTo(BigInteger.valueOf(Integer.MAX_VALUE)) > 0);
+        isSelectorExpressionLong = (isSelectorExpressionBigInteger == false &&
+                expression.getExprType() == Expression.ExpressionType.INTEGER &&
+                (selectorUpperBound == null ||
+                        selectorUpperBound.compareTo(BigInteger.valueOf(Integer.MAX_VALUE)) > 0));
         selectorExpressionBitmaskTypeName = createSelectorExpressionBitmaskType(expression, javaNativeMapper);
 
         caseMemberList = new ArrayList<CaseMember>();
@@ -128,9 +130,21 @@ public final class ChoiceEmitterTemplateData extends CompoundTypeTemplateData
                 final ExpressionFormatter javaExpressionFormatter = context.getJavaExpressionFormatter();
                 final ExpressionFormatter javaCaseExpressionFormatter =
                         context.getJavaCaseExpressionFormatter();
-                expressionForIf = javaExpressionFormatter.formatGetter(choiceExpression);
-                expressionForCase = javaCaseExpressionFormatter.formatGetter(choiceExpression);
                 final BigInteger integerValue = choiceExpression.getIntegerValue();
+                final boolean isLiteral =
+                        choiceExpression.op1() == null && choiceExpression.getExprSymbolObject() == null;
+                if (choiceExpression.getExprType() == Expression.ExpressionType.INTEGER &&
+                        integerValue != null && !isLiteral)
+                {
+                    // type of the expression does not have to be convertible to type of the selector
+                    expressionForIf = integerValue.toString() + (integerValue.bitLength() > 31 ? "L" : "");
+                    expressionForCase = expressionForIf;
+                }
+                else
+                {
+                    expressionForIf = javaExpressionFormatter.formatGetter(choiceExpression);
+                    expressionForCase = javaCaseExpressionFormatter.formatGetter(choiceExpression);
+                }
                 expressionForBigInteger = (integerValue != null) ? integerValue.toString() : expressionForIf;
             }
 
-- 
2.43.0


From ef2cfea9db3fdd73dc5869ef5fa4d1ac0fb45156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:51 +0000
Subject: [PATCH 87/89] fix: expressions were compared by hash codes of
 symbols, which are not unique

---
 .../src/zserio/ast/ExpressionComparator.java  | 26 ++++++++++++++-----
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/compiler/core/src/zserio/ast/ExpressionComparator.java b/compiler/core/src/zserio/ast/ExpressionComparator.java
index ab99545..54b76c5 100644
--- a/compiler/core/src/zserio/ast/ExpressionComparator.java
+++ b/compiler/core/src/zserio/ast/ExpressionComparator.java
@@ -1,7 +1,9 @@
 package zserio.ast;
 
 import java.util.ArrayList;
+import java.util.IdentityHashMap;
 import java.util.List;
+import java.util.Map;
 
 import zserio.antlr.ZserioParser;
 import zserio.extension.common.DefaultExpressionFormattingPolicy;
@@ -44,10 +46,11 @@ final class ExpressionComparator
     {
         try
         {
-            final ExpressionFormatter expressionFormatter1 =
-                    new ExpressionFormatter(new ComparisonExpressionFormattingPolicy(new ArrayList<AstNode>()));
+            final Map<AstNode, Integer> symbolIds = new IdentityHashMap<AstNode, Integer>();
+            final ExpressionFormatter expressionFormatter1 = new ExpressionFormatter(
+                    new ComparisonExpressionFormattingPolicy(new ArrayList<AstNode>(), symbolIds));
             final ExpressionFormatter expressionFormatter2 =
-                    new ExpressionFormatter(new ComparisonExpressionFormattingPolicy(dotPrefix2));
+                    new ExpressionFormatter(new ComparisonExpressionFormattingPolicy(dotPrefix2, symbolIds));
             final String formattedExpr1 = expressionFormatter1.formatGetter(removeParentheses(expr1));
             final String formattedExpr2 = expressionFormatter2.formatGetter(removeParentheses(expr2));
             if (formattedExpr1.equals(formattedExpr2))
@@ -72,8 +75,10 @@ final class ExpressionComparator
 
     private static final class ComparisonExpressionFormattingPolicy extends DefaultExpressionFormattingPolicy
     {
-        public ComparisonExpressionFormattingPolicy(List<AstNode> dotPrefix)
+        public ComparisonExpressionFormattingPolicy(List<AstNode> dotPrefix, Map<AstNode, Integer> symbolIds)
         {
+            this.symbolIds = symbolIds;
+
             final StringBuilder formattedDotPrefix = new StringBuilder();
             for (AstNode dotSymbol : dotPrefix)
             {
@@ -205,9 +210,17 @@ final class ExpressionComparator
             return new BinaryExpressionFormatting("isset(", ", ", ")");
         }
 
-        private static String formatSymbol(AstNode symbol)
+        private String formatSymbol(AstNode symbol)
         {
-            return symbol.getClass().getSimpleName() + "@" + symbol.hashCode();
+            // hash codes of different symbols can be the same
+            Integer symbolId = symbolIds.get(symbol);
+            if (symbolId == null)
+            {
+                symbolId = symbolIds.size();
+                symbolIds.put(symbol, symbolId);
+            }
+
+            return symbol.getClass().getSimpleName() + "@" + symbolId;
         }
 
         private final static String ZSERIO_BINARY_LITERAL_SUFFIX = "b";
@@ -217,6 +230,7 @@ final class ExpressionComparator
 
         private final static String ZSERIO_DOT_SEPARATOR = ".";
 
+        private final Map<AstNode, Integer> symbolIds;
         private final String formattedDotPrefix;
     }
 }
-- 
2.43.0


From be04bee2736f5df44b7d70d0e666c9868a112e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:01 +0000
Subject: [PATCH 88/89] fix: Java expressions compared optional integers by
 references and did not compile where they are narrowed

---
 .../java/JavaDefaultExpressionFormattingPolicy.java  | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java b/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java
index b56eabb..a7d0a62 100644
--- a/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java
+++ b/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java
@@ -459,8 +459,8 @@ public abstract class JavaDefaultExpressionFormattingPolicy extends DefaultExpre
         result.append(JAVA_GETTER_FUNCTION_CALL);
     }
 
-    private void formatFieldAccessor(
-            StringBuilder result, boolean isMostLeftId, Field field, boolean isSetter, ZserioType exprOwner)
+    private void formatFieldAccessor(StringBuilder result, boolean isMostLeftId, Field field, boolean isSetter,
+            ZserioType exprOwner) throws ZserioExtensionException
     {
         if (isMostLeftId)
             result.append(getAccessPrefix(exprOwner));
@@ -474,6 +474,13 @@ public abstract class JavaDefaultExpressionFormattingPolicy extends DefaultExpre
         {
             result.append(AccessorNameFormatter.getGetterName(field));
             result.append(JAVA_GETTER_FUNCTION_CALL);
+            if (field.isOptional())
+            {
+                // getters of optional fields return boxed types which cannot be compared or narrowed directly
+                final JavaNativeType nativeType = javaNativeMapper.getJavaType(field.getTypeInstantiation());
+                if (nativeType.isSimple())
+                    result.append("." + nativeType.getName() + JAVA_UNBOXING_FUNCTION_CALL);
+            }
         }
     }
 
@@ -628,6 +635,7 @@ public abstract class JavaDefaultExpressionFormattingPolicy extends DefaultExpre
 
     private final static String JAVA_GETTER_FUNCTION_CALL = "()";
     private final static String JAVA_SETTER_FUNCTION_CALL = "(value)";
+    private final static String JAVA_UNBOXING_FUNCTION_CALL = "Value()";
 
     private final static String JAVA_LONG_LITERAL_SUFFIX = "L";
     private final static String JAVA_HEXADECIMAL_LITERAL_PREFIX = "0x";
-- 
2.43.0


From 39ea574c1128ecbcff204632a9021eea4568e846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:16 +0000
Subject: [PATCH 89/89] fix: C++ code of types which are recursive by a subtype
 did not compile

---
 .../cpp/CompoundFieldTemplateData.java        |  5 +++--
 .../zserio/extension/cpp/CppNativeMapper.java | 20 ++++++++++++++++---
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/compiler/extensions/cpp/src/zserio/extension/cpp/CompoundFieldTemplateData.java b/compiler/extensions/cpp/src/zserio/extension/cpp/CompoundFieldTemplateData.java
index 541365a..a2e8c34 100644
--- a/compiler/extensions/cpp/src/zserio/extension/cpp/CompoundFieldTemplateData.java
+++ b/compiler/extensions/cpp/src/zserio/extension/cpp/CompoundFieldTemplateData.java
@@ -34,7 +34,7 @@ public final class CompoundFieldTemplateData
         final ZserioType fieldBaseType = fieldTypeInstantiation.getBaseType();
 
         final CppNativeMapper cppNativeMapper = context.getCppNativeMapper();
-        final CppNativeType fieldNativeType = cppNativeMapper.getCppType(fieldTypeInstantiation);
+        final CppNativeType fieldNativeType = cppNativeMapper.getCppType(fieldTypeInstantiation, parentType);
         includeCollector.addHeaderIncludesForType(fieldNativeType);
 
         optional = (field.isOptional())
@@ -466,7 +466,8 @@ public final class CompoundFieldTemplateData
             final ExpressionFormatter cppExpressionFormatter = context.getExpressionFormatter(includeCollector);
             length = createLength(arrayInstantiation, cppExpressionFormatter);
             final CppNativeMapper cppNativeMapper = context.getCppNativeMapper();
-            final CppNativeType elementNativeType = cppNativeMapper.getCppType(elementTypeInstantiation);
+            final CppNativeType elementNativeType =
+                    cppNativeMapper.getCppType(elementTypeInstantiation, parentType);
             includeCollector.addHeaderIncludesForType(elementNativeType);
             elementBitSize = BitSizeTemplateData.create(context, elementTypeInstantiation, includeCollector);
             elementCompound = createCompound(context, elementTypeInstantiation, includeCollector);
diff --git a/compiler/extensions/cpp/src/zserio/extension/cpp/CppNativeMapper.java b/compiler/extensions/cpp/src/zserio/extension/cpp/CppNativeMapper.java
index dc4c8f9..4ab9f3f 100644
--- a/compiler/extensions/cpp/src/zserio/extension/cpp/CppNativeMapper.java
+++ b/compiler/extensions/cpp/src/zserio/extension/cpp/CppNativeMapper.java
@@ -120,7 +120,7 @@ public final class CppNativeMapper
     public CppNativeType getCppType(TypeInstantiation typeInstantiation) throws ZserioExtensionException
     {
         if (typeInstantiation instanceof ArrayInstantiation)
-            return mapArray((ArrayInstantiation)typeInstantiation);
+            return mapArray((ArrayInstantiation)typeInstantiation, null);
         else if (typeInstantiation instanceof DynamicBitFieldInstantiation)
             return mapDynamicBitFieldInstantiation((DynamicBitFieldInstantiation)typeInstantiation);
 
@@ -128,6 +128,19 @@ public final class CppNativeMapper
         return getCppType(typeInstantiation.getType());
     }
 
+    public CppNativeType getCppType(TypeInstantiation typeInstantiation, CompoundType ownerType)
+            throws ZserioExtensionException
+    {
+        if (typeInstantiation instanceof ArrayInstantiation)
+            return mapArray((ArrayInstantiation)typeInstantiation, ownerType);
+
+        // subtypes of the owner itself must be resolved because their definitions (C++ typedefs) need the owner
+        if (typeInstantiation.getBaseType() == ownerType)
+            return getCppType(ownerType);
+
+        return getCppType(typeInstantiation);
+    }
+
     public CppNativeType getCppType(TypeReference typeReference) throws ZserioExtensionException
     {
         // don't resolve subtypes so that the subtype name (C++ typedef) will be used
@@ -289,11 +302,12 @@ public final class CppNativeMapper
         return stdInt64Type;
     }
 
-    private CppNativeType mapArray(ArrayInstantiation instantiation) throws ZserioExtensionException
+    private CppNativeType mapArray(ArrayInstantiation instantiation, CompoundType ownerType)
+            throws ZserioExtensionException
     {
         final TypeInstantiation elementInstantiation = instantiation.getElementTypeInstantiation();
 
-        final CppNativeType nativeType = getCppType(elementInstantiation);
+        final CppNativeType nativeType = getCppType(elementInstantiation, ownerType);
         if (!(nativeType instanceof CppNativeArrayableType))
         {
             throw new ZserioExtensionException("Unhandled arrayable type '" +
-- 
2.43.0

