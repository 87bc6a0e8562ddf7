From 0b4c61f73f337aad176093dd68d723fc878e2ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:50 +0000
Subject: [PATCH 01/31] fix: widen integers by the signedness of the source
 type

---
 src/codegen/codegen.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codegen/codegen.cc b/src/codegen/codegen.cc
index 4ab4f88..a29b732 100644
--- a/src/codegen/codegen.cc
+++ b/src/codegen/codegen.cc
@@ -98,7 +98,7 @@ Status CodeGen::NumericTypeConvert(IRCodeGenContext &ctx, ValueType from, ValueT
     if (TypeHelper::IsIntegerType(to)) {
       *value =
           ctx.builder.CreateIntCast(*value, llvm::IntegerType::get(ctx.context, TypeHelper::GetBitWidthFromType(to)),
-                                    TypeHelper::IsSignedType(to));
+                                    TypeHelper::IsSignedType(from));
       return Status::OK();
     }
     if (TypeHelper::IsFloatType(to)) {
-- 
2.43.0


From b7d4d67259821e5c50cf12542c2970d59b05ad72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:50 +0000
Subject: [PATCH 02/31] fix: route the no-else edge from the block where the
 condition ends

---
 src/codegen/if_block_codegen.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/codegen/if_block_codegen.cc b/src/codegen/if_block_codegen.cc
index 9a09732..e2b4ac1 100644
--- a/src/codegen/if_block_codegen.cc
+++ b/src/codegen/if_block_codegen.cc
@@ -61,12 +61,13 @@ Status CodeGen::Visit(IfBlockNode &if_block_node) {
     llvm::BasicBlock *cond_block = llvm::BasicBlock::Create(ctx_.context, "ifblock.cond", cur_function);
     ctx_.builder.SetInsertPoint(cond_block);
 
-    if (last_cond_block == nullptr) {
-      last_cond_block = cond_block;
-    }
-
     llvm::Value *cond_value{};
     JF_RETURN_NOT_OK(GetValue(args[cond_idx].get(), &cond_value));
+    // The condition may itself span several blocks (short-circuit, if, switch), so the
+    // edge into the merge block leaves from the block in which it ends.
+    if (last_cond_block == nullptr) {
+      last_cond_block = ctx_.builder.GetInsertBlock();
+    }
     if (cond_value->getType()->isIntegerTy()) {
       cond_value = ctx_.builder.CreateICmpNE(cond_value, llvm::ConstantInt::get(cond_value->getType(), 0), "to_bool");
     } else if (cond_value->getType()->isFloatingPointTy()) {
-- 
2.43.0


From 548e1a30b9d07f6d2e9296caa7f6e47fcce0f2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:01 +0000
Subject: [PATCH 03/31] fix: keep all 32 bits of the integer exponent of pow

---
 src/function/math_function_init.cc | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/function/math_function_init.cc b/src/function/math_function_init.cc
index e95bea8..d00c39e 100644
--- a/src/function/math_function_init.cc
+++ b/src/function/math_function_init.cc
@@ -86,9 +86,6 @@ llvm::Value *CallBuiltinPowIFunction(const FunctionSignature &sign,
   if (value->getType()->isIntegerTy()) {
     (void)CodeGen::NumericTypeConvert(ctx, sign.GetParamTypes().at(0), ValueType::kF64, &value);
   }
-  if (value->getType()->isDoubleTy()) {
-    (void)CodeGen::NumericTypeConvert(ctx, ValueType::kI32, ValueType::kI16, &power);
-  }
   llvm::Function *func =
       llvm::Intrinsic::getDeclaration(&ctx.module, llvm::Intrinsic::powi, {value->getType(), power->getType()});
   return ctx.builder.CreateCall(func, {value, power}, "powi");
-- 
2.43.0


From 3093fc3d76a12005849893fa6e2da0bd76d56dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:14 +0000
Subject: [PATCH 04/31] fix: report invalid characters and out-of-range
 literals as parse errors

---
 athena/token.cc | 153 +++++++++++++++++++++++++-----------------------
 athena/token.ll |  11 +++-
 2 files changed, 91 insertions(+), 73 deletions(-)

diff --git a/athena/token.cc b/athena/token.cc
index 7eae7a9..5e9f3b6 100644
--- a/athena/token.cc
+++ b/athena/token.cc
@@ -823,8 +823,10 @@ static const flex_int16_t yy_chk[277] =
 #line 94 "token.ll"
   // Code run each time a pattern is matched.
   # define YY_USER_ACTION  loc.columns (yyleng);
-#line 826 "token.cc"
-#line 827 "token.cc"
+  // Code run when no pattern matches: report the character instead of flex's default of echoing it to stdout.
+  # define ECHO throw athena::Parser::syntax_error(loc, "invalid character: " + std::string(yytext))
+#line 828 "token.cc"
+#line 829 "token.cc"
 
 #define INITIAL 0
 
@@ -1082,16 +1084,16 @@ YY_DECL
 		}
 
 	{
-#line 97 "token.ll"
+#line 99 "token.ll"
 
 
-#line 100 "token.ll"
+#line 102 "token.ll"
   // A handy shortcut to the location held by the Parser.
   athena::location& loc = builder.GetLocation();
   // Code run each time yylex is called.
   loc.step ();
 
-#line 1094 "token.cc"
+#line 1096 "token.cc"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -1146,24 +1148,24 @@ do_action:	/* This label is used only to access EOF actions. */
 
 case 1:
 YY_RULE_SETUP
-#line 105 "token.ll"
+#line 107 "token.ll"
 loc.step ();
 	YY_BREAK
 case 2:
 /* rule 2 can match eol */
 YY_RULE_SETUP
-#line 106 "token.ll"
+#line 108 "token.ll"
 loc.lines (yyleng); loc.step ();
 	YY_BREAK
 case 3:
 YY_RULE_SETUP
-#line 108 "token.ll"
+#line 110 "token.ll"
 loc.step ();
 	YY_BREAK
 case 4:
 /* rule 4 can match eol */
 YY_RULE_SETUP
-#line 109 "token.ll"
+#line 111 "token.ll"
 {
                                 for (int i = 0; i < yyleng; ++i) {
                                   if (yytext[i] == '\n') loc.lines(1);
@@ -1173,306 +1175,306 @@ YY_RULE_SETUP
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
-#line 116 "token.ll"
+#line 118 "token.ll"
 return  athena::Parser::make_LET                         (loc);
 	YY_BREAK
 case 6:
 YY_RULE_SETUP
-#line 117 "token.ll"
+#line 119 "token.ll"
 return  athena::Parser::make_WHEN                        (loc);
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
-#line 118 "token.ll"
+#line 120 "token.ll"
 return  athena::Parser::make_IF                          (loc);
 	YY_BREAK
 case 8:
 YY_RULE_SETUP
-#line 119 "token.ll"
+#line 121 "token.ll"
 return  athena::Parser::make_ELIF                        (loc);
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-#line 120 "token.ll"
+#line 122 "token.ll"
 return  athena::Parser::make_ELSE                        (loc);
 	YY_BREAK
 case 10:
 YY_RULE_SETUP
-#line 121 "token.ll"
+#line 123 "token.ll"
 return  athena::Parser::make_SWITCH                      (loc);
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-#line 122 "token.ll"
+#line 124 "token.ll"
 return  athena::Parser::make_LBRACE                      (loc);
 	YY_BREAK
 case 12:
 YY_RULE_SETUP
-#line 123 "token.ll"
+#line 125 "token.ll"
 return  athena::Parser::make_RBRACE                      (loc);
 	YY_BREAK
 case 13:
 YY_RULE_SETUP
-#line 124 "token.ll"
+#line 126 "token.ll"
 return  athena::Parser::make_SEMI                        (loc);
 	YY_BREAK
 case 14:
 YY_RULE_SETUP
-#line 126 "token.ll"
+#line 128 "token.ll"
 return  athena::Parser::make_IN                          (loc);      
 	YY_BREAK
 case 15:
 YY_RULE_SETUP
-#line 127 "token.ll"
+#line 129 "token.ll"
 return  athena::Parser::make_NOT                         (loc);     
 	YY_BREAK
 case 16:
 YY_RULE_SETUP
-#line 128 "token.ll"
+#line 130 "token.ll"
 return  athena::Parser::make_AND                         (loc);     
 	YY_BREAK
 case 17:
 YY_RULE_SETUP
-#line 129 "token.ll"
+#line 131 "token.ll"
 return  athena::Parser::make_OR                          (loc);      
 	YY_BREAK
 case 18:
 YY_RULE_SETUP
-#line 130 "token.ll"
+#line 132 "token.ll"
 return  athena::Parser::make_TRUE                        (loc);      
 	YY_BREAK
 case 19:
 YY_RULE_SETUP
-#line 131 "token.ll"
+#line 133 "token.ll"
 return  athena::Parser::make_FALSE                       (loc);      
 	YY_BREAK
 case 20:
 YY_RULE_SETUP
-#line 132 "token.ll"
+#line 134 "token.ll"
 return  athena::Parser::make_MINUS                       (loc);   
 	YY_BREAK
 case 21:
 YY_RULE_SETUP
-#line 133 "token.ll"
+#line 135 "token.ll"
 return  athena::Parser::make_PLUS                        (loc);    
 	YY_BREAK
 case 22:
 YY_RULE_SETUP
-#line 134 "token.ll"
+#line 136 "token.ll"
 return  athena::Parser::make_STAR                        (loc);    
 	YY_BREAK
 case 23:
 YY_RULE_SETUP
-#line 135 "token.ll"
+#line 137 "token.ll"
 return  athena::Parser::make_SLASH                       (loc);   
 	YY_BREAK
 case 24:
 YY_RULE_SETUP
-#line 136 "token.ll"
+#line 138 "token.ll"
 return  athena::Parser::make_LPAREN                      (loc);  
 	YY_BREAK
 case 25:
 YY_RULE_SETUP
-#line 137 "token.ll"
+#line 139 "token.ll"
 return  athena::Parser::make_RPAREN                      (loc);  
 	YY_BREAK
 case 26:
 YY_RULE_SETUP
-#line 138 "token.ll"
+#line 140 "token.ll"
 return  athena::Parser::make_MODOLO                      (loc);  
 	YY_BREAK
 case 27:
 YY_RULE_SETUP
-#line 139 "token.ll"
+#line 141 "token.ll"
 return  athena::Parser::make_BITWISE_OR                  (loc);
 	YY_BREAK
 case 28:
 YY_RULE_SETUP
-#line 140 "token.ll"
+#line 142 "token.ll"
 return  athena::Parser::make_BITWISE_XOR                 (loc);
 	YY_BREAK
 case 29:
 YY_RULE_SETUP
-#line 141 "token.ll"
+#line 143 "token.ll"
 return  athena::Parser::make_BITWISE_AND                 (loc);
 	YY_BREAK
 case 30:
 YY_RULE_SETUP
-#line 142 "token.ll"
+#line 144 "token.ll"
 return  athena::Parser::make_BITWISE_NOT                 (loc);
 	YY_BREAK
 case 31:
 YY_RULE_SETUP
-#line 143 "token.ll"
+#line 145 "token.ll"
 return  athena::Parser::make_EQUAL                       (loc);
 	YY_BREAK
 case 32:
 YY_RULE_SETUP
-#line 144 "token.ll"
+#line 146 "token.ll"
 return  athena::Parser::make_ASSIGNMENT                  (loc);
 	YY_BREAK
 case 33:
 YY_RULE_SETUP
-#line 145 "token.ll"
+#line 147 "token.ll"
 return  athena::Parser::make_NOT_EQUAL                   (loc);
 	YY_BREAK
 case 34:
 YY_RULE_SETUP
-#line 146 "token.ll"
+#line 148 "token.ll"
 return  athena::Parser::make_LESS_THAN                   (loc);
 	YY_BREAK
 case 35:
 YY_RULE_SETUP
-#line 147 "token.ll"
+#line 149 "token.ll"
 return  athena::Parser::make_LESS_THAN_OR_EQUAL_TO       (loc);
 	YY_BREAK
 case 36:
 YY_RULE_SETUP
-#line 148 "token.ll"
+#line 150 "token.ll"
 return  athena::Parser::make_GREATER_THAN                (loc);
 	YY_BREAK
 case 37:
 YY_RULE_SETUP
-#line 149 "token.ll"
+#line 151 "token.ll"
 return  athena::Parser::make_GREATER_THAN_OR_EQUAL_TO    (loc);
 	YY_BREAK
 case 38:
 YY_RULE_SETUP
-#line 150 "token.ll"
+#line 152 "token.ll"
 return  athena::Parser::make_COMMA                       (loc);
 	YY_BREAK
 case 39:
 YY_RULE_SETUP
-#line 151 "token.ll"
+#line 153 "token.ll"
 return  athena::Parser::make_LBRACKET                    (loc);
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
-#line 152 "token.ll"
+#line 154 "token.ll"
 return  athena::Parser::make_RBRACKET                    (loc);
 	YY_BREAK
 case 41:
 YY_RULE_SETUP
-#line 153 "token.ll"
+#line 155 "token.ll"
 return  athena::Parser::make_BITWISE_LEFT                (loc);
 	YY_BREAK
 case 42:
 YY_RULE_SETUP
-#line 154 "token.ll"
+#line 156 "token.ll"
 return  athena::Parser::make_BITWISE_RIGHT               (loc);
 	YY_BREAK
 case 43:
 YY_RULE_SETUP
-#line 156 "token.ll"
+#line 158 "token.ll"
 return  athena::Parser::make_ENTRY_ARG   (loc);
 	YY_BREAK
 case 44:
 YY_RULE_SETUP
-#line 157 "token.ll"
+#line 159 "token.ll"
 return  athena::Parser::make_EXEC_CTX    (loc);
 	YY_BREAK
 case 45:
 YY_RULE_SETUP
-#line 158 "token.ll"
+#line 160 "token.ll"
 return  athena::Parser::make_OUTPUT        (loc);
 	YY_BREAK
 case 46:
 YY_RULE_SETUP
-#line 160 "token.ll"
+#line 162 "token.ll"
 return  athena::Parser::make_IDENTIFIER (std::string(yytext), loc);
 	YY_BREAK
 case 47:
 YY_RULE_SETUP
-#line 162 "token.ll"
+#line 164 "token.ll"
 return  athena::Parser::make_I32 (std::stoull(yytext), loc);
 	YY_BREAK
 case 48:
 YY_RULE_SETUP
-#line 163 "token.ll"
+#line 165 "token.ll"
 return  athena::Parser::make_U8 (std::stoull(yytext), loc);
 	YY_BREAK
 case 49:
 YY_RULE_SETUP
-#line 164 "token.ll"
+#line 166 "token.ll"
 return  athena::Parser::make_U16 (std::stoull(yytext), loc);
 	YY_BREAK
 case 50:
 YY_RULE_SETUP
-#line 165 "token.ll"
+#line 167 "token.ll"
 return  athena::Parser::make_U32 (std::stoull(yytext), loc);
 	YY_BREAK
 case 51:
 YY_RULE_SETUP
-#line 166 "token.ll"
+#line 168 "token.ll"
 return  athena::Parser::make_U64 (std::stoull(yytext), loc);
 	YY_BREAK
 case 52:
 YY_RULE_SETUP
-#line 167 "token.ll"
+#line 169 "token.ll"
 return  athena::Parser::make_I8 (std::stoull(yytext), loc);
 	YY_BREAK
 case 53:
 YY_RULE_SETUP
-#line 168 "token.ll"
+#line 170 "token.ll"
 return  athena::Parser::make_I16 (std::stoull(yytext), loc);
 	YY_BREAK
 case 54:
 YY_RULE_SETUP
-#line 169 "token.ll"
+#line 171 "token.ll"
 return  athena::Parser::make_I32 (std::stoull(yytext), loc);
 	YY_BREAK
 case 55:
 YY_RULE_SETUP
-#line 170 "token.ll"
+#line 172 "token.ll"
 return  athena::Parser::make_I64 (std::stoull(yytext), loc);
 	YY_BREAK
 case 56:
 YY_RULE_SETUP
-#line 172 "token.ll"
+#line 174 "token.ll"
 return  athena::Parser::make_F64 (std::stod(yytext), loc);
 	YY_BREAK
 case 57:
 YY_RULE_SETUP
-#line 173 "token.ll"
+#line 175 "token.ll"
 return  athena::Parser::make_F32 (std::stof(yytext), loc);
 	YY_BREAK
 case 58:
 YY_RULE_SETUP
-#line 174 "token.ll"
+#line 176 "token.ll"
 return  athena::Parser::make_F64 (std::stod(yytext), loc);
 	YY_BREAK
 case 59:
 YY_RULE_SETUP
-#line 175 "token.ll"
+#line 177 "token.ll"
 return  athena::Parser::make_F32 (std::stof(yytext), loc);
 	YY_BREAK
 case 60:
 YY_RULE_SETUP
-#line 176 "token.ll"
+#line 178 "token.ll"
 return  athena::Parser::make_F64 (std::stod(yytext), loc);
 	YY_BREAK
 case 61:
 /* rule 61 can match eol */
 YY_RULE_SETUP
-#line 179 "token.ll"
+#line 181 "token.ll"
 return  athena::Parser::make_STRING (std::string(yytext + 1, yyleng - 2), loc);
 	YY_BREAK
 case 62:
 /* rule 62 can match eol */
 YY_RULE_SETUP
-#line 180 "token.ll"
+#line 182 "token.ll"
 return  athena::Parser::make_STRING (std::string(yytext + 1, yyleng - 2), loc);
 	YY_BREAK
 case YY_STATE_EOF(INITIAL):
-#line 182 "token.ll"
+#line 184 "token.ll"
 return  athena::Parser::make_YYEOF (loc);
 	YY_BREAK
 case 63:
 YY_RULE_SETUP
-#line 183 "token.ll"
+#line 185 "token.ll"
 ECHO;
 	YY_BREAK
-#line 1475 "token.cc"
+#line 1477 "token.cc"
 
 	case YY_END_OF_BUFFER:
 		{
@@ -2602,7 +2604,7 @@ void yyfree (void * ptr , yyscan_t yyscanner)
 
 #define YYTABLES_NAME "yytables"
 
-#line 183 "token.ll"
+#line 185 "token.ll"
 
 
 jitfusion::Status athena::ProgramAstBuilder::Scan(const std::string &code) {
@@ -2610,7 +2612,14 @@ jitfusion::Status athena::ProgramAstBuilder::Scan(const std::string &code) {
   yylex_init(&scanner);
   auto *buffer = yy_scan_string(code.c_str(), scanner);
   athena::Parser parser(scanner, *this);
-  int res = parser();
+  int res = 0;
+  try {
+    res = parser();
+  } catch (const std::out_of_range &) {
+    // Thrown by the std::sto* conversions of the numeric literal rules.
+    parser.error(location_, "numeric literal out of range");
+    res = 1;
+  }
   yy_delete_buffer(buffer, scanner);
   yylex_destroy(scanner);
   if (res != 0) {
diff --git a/athena/token.ll b/athena/token.ll
index 3c19b09..0bb4b25 100644
--- a/athena/token.ll
+++ b/athena/token.ll
@@ -93,6 +93,8 @@ blank [ \t\r]
 %{
   // Code run each time a pattern is matched.
   # define YY_USER_ACTION  loc.columns (yyleng);
+  // Code run when no pattern matches: report the character instead of flex's default of echoing it to stdout.
+  # define ECHO throw athena::Parser::syntax_error(loc, "invalid character: " + std::string(yytext))
 %}
 %%
 %{
@@ -186,7 +188,14 @@ jitfusion::Status athena::ProgramAstBuilder::Scan(const std::string &code) {
   yylex_init(&scanner);
   auto *buffer = yy_scan_string(code.c_str(), scanner);
   athena::Parser parser(scanner, *this);
-  int res = parser();
+  int res = 0;
+  try {
+    res = parser();
+  } catch (const std::out_of_range &) {
+    // Thrown by the std::sto* conversions of the numeric literal rules.
+    parser.error(location_, "numeric literal out of range");
+    res = 1;
+  }
   yy_delete_buffer(buffer, scanner);
   yylex_destroy(scanner);
   if (res != 0) {
-- 
2.43.0


From d277e15d8d8a2908e3f1aba1ad57b4551f5daabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:14 +0000
Subject: [PATCH 05/31] fix: stop resolving variables once the program is
 rejected

---
 athena/ast_builder.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/athena/ast_builder.cc b/athena/ast_builder.cc
index 81a9440..4dca311 100644
--- a/athena/ast_builder.cc
+++ b/athena/ast_builder.cc
@@ -64,6 +64,10 @@ Status ProgramAstBuilder::BuildPipeline(const std::string& code, std::unique_ptr
 
 std::unique_ptr<ExecNode> ProgramAstBuilder::MakeRefNode(const std::string& var_name, int begin_line, int begin_col,
                                                          int end_line, int end_col) {
+  if (!custom_error_message_.empty()) {
+    // The program is already rejected, and an earlier expression may be null.
+    return nullptr;
+  }
   if (auto it = var2index_.find(var_name); it != var2index_.end()) {
     if (build_mode_ == BuildMode::kPipeline) {
       return std::make_unique<RefNode>(var_name);
-- 
2.43.0


From 7b3d6ce1380590820d2a57eedad7a7fc09c9a0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:14 +0000
Subject: [PATCH 06/31] fix: drop the open blocks of a failed parse before the
 next one

---
 athena/ast_builder.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/athena/ast_builder.cc b/athena/ast_builder.cc
index 4dca311..03884c5 100644
--- a/athena/ast_builder.cc
+++ b/athena/ast_builder.cc
@@ -20,6 +20,7 @@ using jitfusion::RefNode;
 Status ProgramAstBuilder::BuildExpression(const std::string& code, std::unique_ptr<ExecNode>* result) {
   statements_.clear();
   var2index_.clear();
+  block_stack_.clear();
   parser_error_message_.clear();
   custom_error_message_.clear();
   source_code_ = code;
@@ -40,6 +41,7 @@ Status ProgramAstBuilder::BuildPipeline(const std::string& code, std::unique_ptr
   std::vector<std::unique_ptr<ExecNode>> args;
   statements_.clear();
   var2index_.clear();
+  block_stack_.clear();
   parser_error_message_.clear();
   custom_error_message_.clear();
   source_code_ = code;
-- 
2.43.0


From 35d79a361ad2367e14bf9a6f8ef31fc4bfea8de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:01 +0000
Subject: [PATCH 07/31] fix: validate each batch entry in its own variable
 scope

---
 src/jit_core.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jit_core.cc b/src/jit_core.cc
index 4a46789..7af031c 100644
--- a/src/jit_core.cc
+++ b/src/jit_core.cc
@@ -242,8 +242,9 @@ Status JitCore::BuildAndLink(const std::vector<ExecNode*>& nodes, const std::vec
   }
 
   // Validation runs up front on caller-supplied nodes.
-  Validator validator(func_registry);
+  // Each root is its own program, so it gets its own variable scope.
   for (auto* node : nodes) {
+    Validator validator(func_registry);
     JF_RETURN_NOT_OK(validator.Validate(node));
   }
 
-- 
2.43.0


From 7936ef36115632b59189c671e4aa4046f937003e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:01 +0000
Subject: [PATCH 08/31] fix: leave the batch engine uncompiled when Compile
 fails

---
 src/batch_exec_engine.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/batch_exec_engine.cc b/src/batch_exec_engine.cc
index 5484bb1..0c7a31d 100644
--- a/src/batch_exec_engine.cc
+++ b/src/batch_exec_engine.cc
@@ -31,11 +31,14 @@ std::string_view BatchExecEngine::GetIRCode() const { return core_->GetIRCode();
 
 Status BatchExecEngine::Compile(const std::vector<std::unique_ptr<ExecNode>>& exec_nodes,
                                 const std::unique_ptr<FunctionRegistry>& func_registry) {
+  // Clear previous compilation state up front so that a failed Compile
+  // leaves the engine in a cleanly-uncompiled state rather than a half-
+  // configured one.
+  entry_func_ptrs_.clear();
+  ret_types_.clear();
   if (exec_nodes.empty()) {
     return Status::ParseError("Compile: exec_nodes is empty");
   }
-  entry_func_ptrs_.clear();
-  ret_types_.clear();
 
   std::vector<ExecNode*> nodes;
   nodes.reserve(exec_nodes.size());
@@ -45,7 +48,13 @@ Status BatchExecEngine::Compile(const std::vector<std::unique_ptr<ExecNode>>& ex
     nodes.emplace_back(exec_nodes[i].get());
     names.emplace_back(kEntryFunctionName + std::to_string(i));
   }
-  return core_->BuildAndLink(nodes, names, func_registry, &entry_func_ptrs_, &ret_types_);
+  std::vector<char*> func_ptrs;
+  std::vector<ValueType> ret_types;
+  JF_RETURN_NOT_OK(core_->BuildAndLink(nodes, names, func_registry, &func_ptrs, &ret_types));
+
+  entry_func_ptrs_ = std::move(func_ptrs);
+  ret_types_ = std::move(ret_types);
+  return Status::OK();
 }
 
 Status BatchExecEngine::ExecuteAt(size_t index, void* entry_arguments, RetType* result) {
-- 
2.43.0


From cdf125e7516930778a0188839990eab5694c10b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:01 +0000
Subject: [PATCH 09/31] fix: keep the current code alive when LoadCompiled
 fails

---
 src/batch_exec_engine.cc | 7 +++++--
 src/exec_engine.cc       | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/batch_exec_engine.cc b/src/batch_exec_engine.cc
index 0c7a31d..c47c5a9 100644
--- a/src/batch_exec_engine.cc
+++ b/src/batch_exec_engine.cc
@@ -221,7 +221,9 @@ Status BatchExecEngine::LoadCompiled(std::string_view bytes, const std::unique_p
 
   ExecEngineOption new_opt = core_->GetOption();
   new_opt.fp_math_mode = header.fp_math_mode;
-  core_ = std::make_unique<JitCore>(new_opt);
+  // The current core stays in place until the load has succeeded: the entry
+  // pointers of a previous Compile/LoadCompiled point into it.
+  auto new_core = std::make_unique<JitCore>(new_opt);
 
   const size_t n = header.per_entry_ret_types.size();
   std::vector<std::string> symbol_names;
@@ -230,8 +232,9 @@ Status BatchExecEngine::LoadCompiled(std::string_view bytes, const std::unique_p
     symbol_names.emplace_back(kEntryFunctionName + std::to_string(i));
   }
   std::vector<char*> func_ptrs;
-  JF_RETURN_NOT_OK(core_->LoadObject(obj_view, symbol_names, func_registry, &func_ptrs));
+  JF_RETURN_NOT_OK(new_core->LoadObject(obj_view, symbol_names, func_registry, &func_ptrs));
 
+  core_ = std::move(new_core);
   entry_func_ptrs_ = std::move(func_ptrs);
   ret_types_ = std::move(header.per_entry_ret_types);
   return Status::OK();
diff --git a/src/exec_engine.cc b/src/exec_engine.cc
index b15c9eb..b14ed34 100644
--- a/src/exec_engine.cc
+++ b/src/exec_engine.cc
@@ -130,12 +130,15 @@ Status ExecEngine::LoadCompiled(std::string_view bytes, const std::unique_ptr<Fu
   // linker flags stay consistent).
   ExecEngineOption new_opt = core_->GetOption();
   new_opt.fp_math_mode = header.fp_math_mode;
-  core_ = std::make_unique<JitCore>(new_opt);
+  // The current core stays in place until the load has succeeded: the entry
+  // pointers of a previous Compile/LoadCompiled point into it.
+  auto new_core = std::make_unique<JitCore>(new_opt);
 
   std::vector<std::string> symbol_names{kEntryFunctionName};
   std::vector<char*> func_ptrs;
-  JF_RETURN_NOT_OK(core_->LoadObject(obj_view, symbol_names, func_registry, &func_ptrs));
+  JF_RETURN_NOT_OK(new_core->LoadObject(obj_view, symbol_names, func_registry, &func_ptrs));
 
+  core_ = std::move(new_core);
   entry_func_ptr_ = func_ptrs[0];
   // DeserializeArtifact guarantees per_entry_ret_types is non-empty
   // (num_entries >= 1, and single-mode blobs specifically have exactly
-- 
2.43.0


From 877a476873b3a76498be99fa789f9ecbaa6e0bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:01 +0000
Subject: [PATCH 10/31] fix: report an error instead of calling a null entry
 point

---
 src/exec_engine.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/exec_engine.cc b/src/exec_engine.cc
index b14ed34..5781a23 100644
--- a/src/exec_engine.cc
+++ b/src/exec_engine.cc
@@ -68,6 +68,9 @@ Status ExecEngine::Execute(ExecContext& exec_ctx, void* entry_arguments, RetType
 }
 
 Status ExecEngine::Execute(void* entry_arguments, void* result) {
+  if (entry_func_ptr_ == nullptr) {
+    return Status::RuntimeError("Execute: nothing compiled yet. Call Compile() first.");
+  }
   ExecContext exec_ctx(core_->GetOption().exec_ctx_arena_alloc_min_chunk_size);
   reinterpret_cast<::jitfusion::execute_dispatch::return_void_function_type>(entry_func_ptr_)(entry_arguments,
                                                                                               &exec_ctx, result);
@@ -78,6 +81,9 @@ Status ExecEngine::Execute(void* entry_arguments, void* result) {
 }
 
 Status ExecEngine::Execute(ExecContext& exec_ctx, void* entry_arguments, void* result) {
+  if (entry_func_ptr_ == nullptr) {
+    return Status::RuntimeError("Execute: nothing compiled yet. Call Compile() first.");
+  }
   reinterpret_cast<::jitfusion::execute_dispatch::return_void_function_type>(entry_func_ptr_)(entry_arguments,
                                                                                               &exec_ctx, result);
   Status ret = Status::OK();
-- 
2.43.0


From c47f9acfbe69e1aeb273197708870ef0d56d1748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:25 +0000
Subject: [PATCH 11/31] fix: reset the JIT core whenever BuildAndLink fails

---
 src/jit_core.cc | 10 ++++++++++
 src/jit_core.h  |  5 +++++
 2 files changed, 15 insertions(+)

diff --git a/src/jit_core.cc b/src/jit_core.cc
index 7af031c..44951b6 100644
--- a/src/jit_core.cc
+++ b/src/jit_core.cc
@@ -234,6 +234,16 @@ Status JitCore::CreateJit() {
 Status JitCore::BuildAndLink(const std::vector<ExecNode*>& nodes, const std::vector<std::string>& symbol_names,
                              const std::unique_ptr<FunctionRegistry>& func_registry, std::vector<char*>* out_func_ptrs,
                              std::vector<ValueType>* out_ret_types) {
+  Status status = BuildAndLinkImpl(nodes, symbol_names, func_registry, out_func_ptrs, out_ret_types);
+  if (!status.ok()) {
+    Reset();
+  }
+  return status;
+}
+
+Status JitCore::BuildAndLinkImpl(const std::vector<ExecNode*>& nodes, const std::vector<std::string>& symbol_names,
+                                 const std::unique_ptr<FunctionRegistry>& func_registry,
+                                 std::vector<char*>* out_func_ptrs, std::vector<ValueType>* out_ret_types) {
   if (nodes.empty()) {
     return Status::ParseError("BuildAndLink: nodes is empty");
   }
diff --git a/src/jit_core.h b/src/jit_core.h
index f37eac0..f201a63 100644
--- a/src/jit_core.h
+++ b/src/jit_core.h
@@ -85,6 +85,11 @@ class JitCore {
   [[nodiscard]] const ExecEngineOption& GetOption() const { return option_; }
 
  private:
+  // BuildAndLink without the reset on failure.
+  Status BuildAndLinkImpl(const std::vector<ExecNode*>& nodes, const std::vector<std::string>& symbol_names,
+                          const std::unique_ptr<FunctionRegistry>& func_registry, std::vector<char*>* out_func_ptrs,
+                          std::vector<ValueType>* out_ret_types);
+
   // Shared between BuildAndLink and LoadObject: construct a fresh LLJIT
   // with the right FP options and add the process dylib resolver.
   Status CreateJit();
-- 
2.43.0


From ff79ce8446947b11cd2147b25b9616275994f434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:25 +0000
Subject: [PATCH 12/31] fix: keep the engine's FP mode when it loads an
 artifact

---
 src/batch_exec_engine.cc | 10 +++++-----
 src/exec_engine.cc       | 14 +++++---------
 2 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/batch_exec_engine.cc b/src/batch_exec_engine.cc
index c47c5a9..099fab3 100644
--- a/src/batch_exec_engine.cc
+++ b/src/batch_exec_engine.cc
@@ -219,11 +219,11 @@ Status BatchExecEngine::LoadCompiled(std::string_view bytes, const std::unique_p
   JF_RETURN_NOT_OK(CheckHostCompatibility(header, opts, LLVM_VERSION_STRING, llvm::sys::getProcessTriple(),
                                           llvm::sys::getHostCPUName().str(), ArtifactMode::kBatch));
 
-  ExecEngineOption new_opt = core_->GetOption();
-  new_opt.fp_math_mode = header.fp_math_mode;
-  // The current core stays in place until the load has succeeded: the entry
-  // pointers of a previous Compile/LoadCompiled point into it.
-  auto new_core = std::make_unique<JitCore>(new_opt);
+  // The object bytes are already codegen'd under the artifact's own FP mode, so
+  // the engine keeps its configured options for later Compile calls. The current
+  // core stays in place until the load has succeeded: the entry pointers of a
+  // previous Compile/LoadCompiled point into it.
+  auto new_core = std::make_unique<JitCore>(core_->GetOption());
 
   const size_t n = header.per_entry_ret_types.size();
   std::vector<std::string> symbol_names;
diff --git a/src/exec_engine.cc b/src/exec_engine.cc
index 5781a23..b8beb1f 100644
--- a/src/exec_engine.cc
+++ b/src/exec_engine.cc
@@ -130,15 +130,11 @@ Status ExecEngine::LoadCompiled(std::string_view bytes, const std::unique_ptr<Fu
   JF_RETURN_NOT_OK(CheckHostCompatibility(header, opts, LLVM_VERSION_STRING, llvm::sys::getProcessTriple(),
                                           llvm::sys::getHostCPUName().str(), ArtifactMode::kSingle));
 
-  // Rebuild a JitCore that reflects the FP mode actually baked into the
-  // artifact (FP mode affects codegen flags, but the object bytes are
-  // already codegen'd — we only need the LLJIT to match so that any
-  // linker flags stay consistent).
-  ExecEngineOption new_opt = core_->GetOption();
-  new_opt.fp_math_mode = header.fp_math_mode;
-  // The current core stays in place until the load has succeeded: the entry
-  // pointers of a previous Compile/LoadCompiled point into it.
-  auto new_core = std::make_unique<JitCore>(new_opt);
+  // The object bytes are already codegen'd under the artifact's own FP mode, so
+  // the engine keeps its configured options for later Compile calls. The current
+  // core stays in place until the load has succeeded: the entry pointers of a
+  // previous Compile/LoadCompiled point into it.
+  auto new_core = std::make_unique<JitCore>(core_->GetOption());
 
   std::vector<std::string> symbol_names{kEntryFunctionName};
   std::vector<char*> func_ptrs;
-- 
2.43.0


From 619e50368c7706f2bd390f5b5ccaadc98da892c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:00 +0000
Subject: [PATCH 13/31] fix: do not clear the byte past a full bitmap

---
 src/function/list_comparison.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/function/list_comparison.cc b/src/function/list_comparison.cc
index e7b2912..e485395 100644
--- a/src/function/list_comparison.cc
+++ b/src/function/list_comparison.cc
@@ -290,7 +290,9 @@ U8ListStruct GenBitmap(ListType a, typename ListType::CElementType b, void *exec
     result.data[(i / 8)] = mask_bit;
   }
   auto last_index = (vec_loop_len / 8);
-  result.data[last_index] = 0;
+  if (last_index < result.len) {
+    result.data[last_index] = 0;
+  }
   for (int j = 0; i + j < a.len; j++) {
     uint32_t is_true;
     if constexpr (BinaryOPType::kLarge == OpType) {
@@ -350,7 +352,9 @@ U8ListStruct GenBitmapList(ListType a, ListType b, void *exec_context) {
     result.data[(i / 8)] = mask_bit;
   }
   auto last_index = (vec_loop_len / 8);
-  result.data[last_index] = 0;
+  if (last_index < result.len) {
+    result.data[last_index] = 0;
+  }
   for (int j = 0; i + j < len; j++) {
     uint32_t is_true;
     if constexpr (BinaryOPType::kLarge == OpType) {
-- 
2.43.0


From c2597dc02b4d2541adaf36abb811b90e9c4ba4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:00 +0000
Subject: [PATCH 14/31] fix: check the bit count before FilterByBitmap sizes
 its result

---
 src/function/list_comparison.cc | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/function/list_comparison.cc b/src/function/list_comparison.cc
index e485395..996d6f5 100644
--- a/src/function/list_comparison.cc
+++ b/src/function/list_comparison.cc
@@ -383,8 +383,18 @@ ListType FilterByBitmap(ListType a, U8ListStruct bitmap, uint32_t bits_cnt, void
     exec_ctx->AddError("FilterByBitmap: bitmap len is not corresponding to list len");
     return {nullptr, 0};
   }
+  // The copy below writes one slot per set bit (plus one of slack), so the count
+  // has to match before it sizes the buffer.
+  uint64_t set_bits = 0;
+  for (uint32_t i = 0; i < bitmap.len; i++) {
+    set_bits += static_cast<uint64_t>(__builtin_popcount(bitmap.data[i]));
+  }
+  if (set_bits != bits_cnt) {
+    exec_ctx->AddError("FilterByBitmap: bitmap len is not corresponding to bits_cnt");
+    return {nullptr, 0};
+  }
   ListType result;
-  result.data = reinterpret_cast<T *>(exec_ctx->arena.Allocate((bits_cnt + 1) * sizeof(T)));
+  result.data = reinterpret_cast<T *>(exec_ctx->arena.Allocate((static_cast<size_t>(bits_cnt) + 1) * sizeof(T)));
   result.len = bits_cnt;
 
   uint32_t cur = 0;
@@ -422,10 +432,6 @@ ListType FilterByBitmap(ListType a, U8ListStruct bitmap, uint32_t bits_cnt, void
       cur += b;
     }
   }
-  if (cur != bits_cnt) {
-    exec_ctx->AddError("FilterByBitmap: bitmap len is not corresponding to bits_cnt");
-    return {nullptr, 0};
-  }
   return result;
 }
 
-- 
2.43.0


From c799b88ee2f294718ef6531126501f5ebfa6fa1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:00 +0000
Subject: [PATCH 15/31] fix: bound artifact lengths by the bytes that remain

---
 src/compiled_artifact.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/compiled_artifact.cc b/src/compiled_artifact.cc
index 2c55b07..6374ea0 100644
--- a/src/compiled_artifact.cc
+++ b/src/compiled_artifact.cc
@@ -127,7 +127,7 @@ class ArtifactReader {
   }
 
   Status ReadBytesView(std::size_t n, std::string_view* out) {
-    if (pos_ + n > buf_.size()) {
+    if (n > remaining()) {
       return Status::InvalidArgument("compiled artifact: truncated blob (want ", n, " bytes, have ", buf_.size() - pos_,
                                      ")");
     }
@@ -254,6 +254,10 @@ Status DeserializeArtifact(std::string_view blob, ArtifactHeader* out_header, st
   if (out_header->mode == ArtifactMode::kSingle && num_entries != 1) {
     return Status::InvalidArgument("compiled artifact: single-mode artifact with num_entries=", num_entries);
   }
+  if (num_entries > r.remaining()) {
+    return Status::InvalidArgument("compiled artifact: truncated return types (want ", num_entries, " bytes, have ",
+                                   r.remaining(), ")");
+  }
   out_header->per_entry_ret_types.resize(num_entries);
   for (std::uint32_t i = 0; i < num_entries; ++i) {
     std::uint8_t rt_byte = 0;
@@ -268,7 +272,6 @@ Status DeserializeArtifact(std::string_view blob, ArtifactHeader* out_header, st
   std::uint32_t ext_count = 0;
   JF_RETURN_NOT_OK(r.ReadU32LE(&ext_count));
   out_header->extensions.clear();
-  out_header->extensions.reserve(ext_count);
   for (std::uint32_t i = 0; i < ext_count; ++i) {
     ArtifactExtension ext;
     JF_RETURN_NOT_OK(r.ReadU32LE(&ext.tag));
-- 
2.43.0


From 3db88f20ed6da84f06e1b0b5ece39a29eb58ca01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:19 +0000
Subject: [PATCH 16/31] fix: apply the let rules in expression mode

---
 athena/ast_builder.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/athena/ast_builder.cc b/athena/ast_builder.cc
index 03884c5..16531cd 100644
--- a/athena/ast_builder.cc
+++ b/athena/ast_builder.cc
@@ -93,6 +93,23 @@ std::unique_ptr<ExecNode> ProgramAstBuilder::MakeRefNode(const std::string& var_
 }
 
 void ProgramAstBuilder::AddStatement(Statement statement) {
+  // A pipeline keeps its variables in the AST and the validator applies the `let`
+  // rules there. An expression is substituted away here, so they are applied here.
+  if (build_mode_ == BuildMode::kExpression && custom_error_message_.empty()) {
+    if (auto it = var2index_.find(statement.var_name); it != var2index_.end()) {
+      std::string message;
+      if (statements_[it->second].is_const) {
+        message = "cannot reassign const variable '" + statement.var_name + "'";
+      } else if (statement.is_const) {
+        message = "cannot redeclare variable '" + statement.var_name + "' with let";
+      }
+      if (!message.empty()) {
+        custom_error_message_ = jitfusion::Diagnostic(jitfusion::Diagnostic::Level::kError, std::move(message),
+                                                      statement.expression->GetLocation())
+                                    .Render();
+      }
+    }
+  }
   statements_.emplace_back(std::move(statement));
   const auto& var_name = statements_.back().var_name;
   if (var_name.empty()) {
-- 
2.43.0


From 91f05ef866c38bf481911bb70c139c4836c763a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:56 +0000
Subject: [PATCH 17/31] fix: pass list arguments that straddle the registers by
 value

---
 src/codegen/function_codegen.cc | 53 +++++++++++++++++++++++++++++++--
 1 file changed, 51 insertions(+), 2 deletions(-)

diff --git a/src/codegen/function_codegen.cc b/src/codegen/function_codegen.cc
index 42d39a0..8dab42d 100644
--- a/src/codegen/function_codegen.cc
+++ b/src/codegen/function_codegen.cc
@@ -13,6 +13,41 @@
 
 namespace jitfusion {
 
+namespace {
+
+// The System V x86-64 ABI passes a {data, len} aggregate either whole in two integer registers or whole on
+// the stack, while LLVM splits a first-class struct argument when a single register is left. Such an argument
+// is passed byval instead, which is what a C compiler does. Returns the indices of the converted arguments.
+std::vector<unsigned> PassStraddlingAggregatesByVal(IRCodeGenContext& ctx, std::vector<llvm::Type*>* types,
+                                                    std::vector<llvm::Value*>* values) {
+  std::vector<unsigned> byval_indices;
+#if defined(__x86_64__) && !defined(_WIN32)
+  constexpr int kIntegerRegisters = 6;
+  int used = 0;
+  for (unsigned i = 0; i < types->size(); ++i) {
+    llvm::Type* type = (*types)[i];
+    if (!type->isStructTy()) {
+      used += type->isFloatingPointTy() ? 0 : 1;
+      continue;
+    }
+    if (used + 2 <= kIntegerRegisters) {
+      used += 2;
+      continue;
+    }
+    llvm::BasicBlock& entry = ctx.entry_function->getEntryBlock();
+    llvm::IRBuilder<> entry_builder(&entry, entry.begin());
+    llvm::Value* slot = entry_builder.CreateAlloca(type);
+    ctx.builder.CreateStore((*values)[i], slot);
+    (*types)[i] = slot->getType();
+    (*values)[i] = slot;
+    byval_indices.emplace_back(i);
+  }
+#endif
+  return byval_indices;
+}
+
+}  // namespace
+
 Status CodeGen::Visit(FunctionNode& function_node) {
   std::vector<ValueType> args_type_list;
   std::vector<llvm::Type*> args_llvm_type_list;
@@ -53,16 +88,30 @@ Status CodeGen::Visit(FunctionNode& function_node) {
 
       llvm::Type* llvm_ret_type;
       JF_RETURN_NOT_OK(ValueTypeToLLVMType(ctx_, function_node.GetReturnType(), &llvm_ret_type));
+      const std::vector<llvm::Type*> natural_type_list = args_llvm_type_list;
+      const std::vector<unsigned> byval_indices =
+          PassStraddlingAggregatesByVal(ctx_, &args_llvm_type_list, &args_llvm_value_list);
       llvm::FunctionType* func_type =
           llvm::FunctionType::get(llvm_ret_type, llvm::ArrayRef<llvm::Type*>(args_llvm_type_list), false);
 
       llvm::FunctionCallee call_func_callee = ctx_.module.getOrInsertFunction(call_symbol_name, func_type);
 
+      llvm::CallInst* call = nullptr;
       if (function_node.GetReturnType() == ValueType::kVoid) {
-        ctx_.builder.CreateCall(call_func_callee, args_llvm_value_list);
+        call = ctx_.builder.CreateCall(call_func_callee, args_llvm_value_list);
         value_ = nullptr;
       } else {
-        value_ = ctx_.builder.CreateCall(call_func_callee, args_llvm_value_list, "call_" + function_node.GetFuncName());
+        call = ctx_.builder.CreateCall(call_func_callee, args_llvm_value_list, "call_" + function_node.GetFuncName());
+        value_ = call;
+      }
+      auto* callee = llvm::cast<llvm::Function>(call_func_callee.getCallee());
+      for (unsigned i : byval_indices) {
+        const auto byval = llvm::Attribute::getWithByValType(ctx_.context, natural_type_list[i]);
+        const auto align = llvm::Attribute::getWithAlignment(ctx_.context, llvm::Align(8));
+        call->addParamAttr(i, byval);
+        call->addParamAttr(i, align);
+        callee->addParamAttr(i, byval);
+        callee->addParamAttr(i, align);
       }
     } break;
     default:
-- 
2.43.0


From 961fce7f663002fcbece365b09c0e2f677e95d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:21 +0000
Subject: [PATCH 18/31] fix: take the new return type when a function is
 overwritten

---
 src/function_registry.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/function_registry.cc b/src/function_registry.cc
index d706377..d907225 100644
--- a/src/function_registry.cc
+++ b/src/function_registry.cc
@@ -111,7 +111,9 @@ Status FunctionRegistry::RegisterFunc(const FunctionSignature& func_sign, Functi
     return Status::InvalidArgument("function ", func_sign.ToString(),
                                    " is already registered; pass allow_override=true to overwrite");
   }
-  signature2funcstruct_[func_sign] = std::move(func_struct);
+  // The return type is part of the key but not of its equality, so an overwritten entry takes the new key too.
+  signature2funcstruct_.erase(func_sign);
+  signature2funcstruct_.emplace(func_sign, std::move(func_struct));
   return Status::OK();
 }
 
-- 
2.43.0


From efd17510c6837136996d5b19b1fd6af134bfa8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:39 +0000
Subject: [PATCH 19/31] fix: register both exec-context signatures or neither

---
 src/function_registry.cc | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/function_registry.cc b/src/function_registry.cc
index d907225..5448dc3 100644
--- a/src/function_registry.cc
+++ b/src/function_registry.cc
@@ -60,6 +60,12 @@ struct StoreFunctionSetter {
   }
 };
 
+FunctionSignature LegacyExecCtxSignature(const FunctionSignature& func_sign) {
+  std::vector<ValueType> params = func_sign.GetParamTypes();
+  params.emplace_back(ValueType::kPtr);
+  return {func_sign.GetName(), std::move(params), func_sign.GetRetType()};
+}
+
 }  // namespace
 
 bool FunctionSignature::operator==(const FunctionSignature& other) const {
@@ -145,6 +151,7 @@ Status FunctionRegistry::RegisterReadOnlyCFuncWithExecCtx(const FunctionSignatur
   if (nullptr == c_func_ptr) {
     return Status::InvalidArgument("c_func_ptr is nullptr");
   }
+  const FunctionSignature legacy_sign = LegacyExecCtxSignature(func_sign);
   // Modern user-visible signature: no trailing kPtr; codegen auto-injects
   // exec_ctx when emitting the call so the C ABI (N+1 args) is preserved.
   {
@@ -153,15 +160,17 @@ Status FunctionRegistry::RegisterReadOnlyCFuncWithExecCtx(const FunctionSignatur
     func_struct.c_func_ptr = c_func_ptr;
     func_struct.func_attr_setter = ReadOnlyFunctionAttributeSetter;
     func_struct.needs_exec_ctx = true;
+    // Both signatures are registered, or neither is.
+    if (!allow_override && signature2funcstruct_.find(legacy_sign) != signature2funcstruct_.end()) {
+      return Status::InvalidArgument("function ", legacy_sign.ToString(),
+                                     " is already registered; pass allow_override=true to overwrite");
+    }
     JF_RETURN_NOT_OK(RegisterFunc(func_sign, std::move(func_struct), allow_override));
   }
   // Legacy compatibility signature: with trailing kPtr; behaves exactly
   // like the old RegisterReadOnlyCFunc registration. Existing callers
   // (AST builders that still create an ExecContextNode tail arg, or
   // athena DSL code using `EXEC_CTX`) keep working unchanged.
-  std::vector<ValueType> legacy_params = func_sign.GetParamTypes();
-  legacy_params.emplace_back(ValueType::kPtr);
-  FunctionSignature legacy_sign(func_sign.GetName(), std::move(legacy_params), func_sign.GetRetType());
   FunctionStructure legacy_struct;
   legacy_struct.func_type = FunctionType::kCFunc;
   legacy_struct.c_func_ptr = c_func_ptr;
@@ -199,6 +208,7 @@ Status FunctionRegistry::RegisterCommutativeCFuncWithExecCtx(const FunctionSigna
   if (nullptr == c_func_ptr) {
     return Status::InvalidArgument("c_func_ptr is nullptr");
   }
+  const FunctionSignature legacy_sign = LegacyExecCtxSignature(func_sign);
   // Modern user-visible signature: no trailing kPtr; codegen auto-injects.
   {
     FunctionStructure func_struct;
@@ -206,14 +216,16 @@ Status FunctionRegistry::RegisterCommutativeCFuncWithExecCtx(const FunctionSigna
     func_struct.c_func_ptr = c_func_ptr;
     func_struct.func_attr_setter = CommutantFunctionAttributeSetter;
     func_struct.needs_exec_ctx = true;
+    // Both signatures are registered, or neither is.
+    if (!allow_override && signature2funcstruct_.find(legacy_sign) != signature2funcstruct_.end()) {
+      return Status::InvalidArgument("function ", legacy_sign.ToString(),
+                                     " is already registered; pass allow_override=true to overwrite");
+    }
     JF_RETURN_NOT_OK(RegisterFunc(func_sign, std::move(func_struct), allow_override));
   }
   // Legacy compatibility signature: with trailing kPtr; identical to the
   // old RegisterCommutativeCFunc registration so existing AST/DSL code
   // that still passes ExecContextNode keeps resolving.
-  std::vector<ValueType> legacy_params = func_sign.GetParamTypes();
-  legacy_params.emplace_back(ValueType::kPtr);
-  FunctionSignature legacy_sign(func_sign.GetName(), std::move(legacy_params), func_sign.GetRetType());
   FunctionStructure legacy_struct;
   legacy_struct.func_type = FunctionType::kCFunc;
   legacy_struct.c_func_ptr = c_func_ptr;
-- 
2.43.0


From f02366251ef67d1caadd242251b770c8d24fa262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:48 +0000
Subject: [PATCH 20/31] fix: keep constant lists that differ in sign bit or NaN
 apart

---
 include/function_registry.h | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/include/function_registry.h b/include/function_registry.h
index d6b8b4c..e22cbe9 100644
--- a/include/function_registry.h
+++ b/include/function_registry.h
@@ -6,10 +6,13 @@
  */
 #pragma once
 
+#include <cstring>
 #include <functional>
 #include <map>
 #include <string>
+#include <type_traits>
 #include <unordered_map>
+#include <variant>
 #include <vector>
 #include "llvm/ExecutionEngine/Orc/LLJIT.h"
 #include "llvm/IR/Attributes.h"
@@ -52,6 +55,30 @@ struct LLVMStructType {
 
 constexpr const char *kCommutative = "commutative";
 
+// Orders constant lists by their bits: operator< calls 0.0 and -0.0 the same value and cannot order NaN.
+struct ConstantListBitwiseLess {
+  bool operator()(const ConstantListValueType &lhs, const ConstantListValueType &rhs) const {
+    if (lhs.index() != rhs.index()) {
+      return lhs.index() < rhs.index();
+    }
+    return std::visit(
+        [&rhs](const auto &list) {
+          using ListType = std::decay_t<decltype(list)>;
+          const auto &other = std::get<ListType>(rhs);
+          if constexpr (std::is_floating_point_v<typename ListType::value_type>) {
+            if (list.size() != other.size()) {
+              return list.size() < other.size();
+            }
+            return !list.empty() &&
+                   std::memcmp(list.data(), other.data(), list.size() * sizeof(typename ListType::value_type)) < 0;
+          } else {
+            return list < other;
+          }
+        },
+        lhs);
+  }
+};
+
 struct IRCodeGenContext {
   IRCodeGenContext(llvm::LLVMContext &context, llvm::Module &module, llvm::IRBuilder<> &builder,
                    llvm::Function *entry_function, LLVMStructType complex_type,
@@ -68,7 +95,7 @@ struct IRCodeGenContext {
   llvm::IRBuilder<> &builder;
   llvm::Function *entry_function;
   LLVMStructType complex_type;
-  std::map<ConstantListValueType, llvm::Value *> const_list_cache;
+  std::map<ConstantListValueType, llvm::Value *, ConstantListBitwiseLess> const_list_cache;
   std::map<std::string, llvm::Constant *> const_string_cache;
   const std::unique_ptr<FunctionRegistry> &function_registry;
 };
-- 
2.43.0


From 474658a21d4c70f5453e1e1e551b7d110ea817d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:07 +0000
Subject: [PATCH 21/31] verif hook: one heap block per arena allocation
 (JITFUSION_VERIF_GUARD_ARENA)

---
 src/arena.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/arena.cc b/src/arena.cc
index 8bfefa0..75dc336 100644
--- a/src/arena.cc
+++ b/src/arena.cc
@@ -20,6 +20,17 @@ uint8_t* Arena::Allocate(size_t size, size_t alignment) {
   // Alignment must be a power of two and non-zero.
   assert(alignment > 0 && (alignment & (alignment - 1)) == 0);
 
+#ifdef JITFUSION_VERIF_GUARD_ARENA
+  // Every allocation is a heap block of exactly its own size, so that a sanitizer sees an access outside it.
+  if (alignment <= alignof(std::max_align_t)) {
+    if (!AllocateChunk(size).ok()) {
+      return nullptr;
+    }
+    avail_bytes_ = 0;
+    return avail_buf_;
+  }
+#endif
+
   // Compute the padding needed to align avail_buf_ up to `alignment`.
   // Using the classic `(-addr) & mask` trick: when addr is already
   // aligned the result is 0, otherwise it equals `alignment - (addr & mask)`.
-- 
2.43.0


From b4dbaa8ebd145b0e29ffe5c60026b9da400313f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:46 +0000
Subject: [PATCH 22/31] fix: GroupMax and GroupMin of groups holding only
 infinities

---
 src/function/list_group.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/function/list_group.cc b/src/function/list_group.cc
index c577528..001e78f 100644
--- a/src/function/list_group.cc
+++ b/src/function/list_group.cc
@@ -129,7 +129,7 @@ VList GroupMax(VList values, U32ListStruct group_index, uint32_t distinct, void
   VList result;
   result.len = distinct;
   result.data = reinterpret_cast<V *>(exec_ctx->arena.Allocate(sizeof(V) * distinct));
-  V seed = std::numeric_limits<V>::lowest();
+  V seed = std::numeric_limits<V>::has_infinity ? -std::numeric_limits<V>::infinity() : std::numeric_limits<V>::lowest();
   std::fill_n(result.data, distinct, seed);
   for (uint32_t i = 0; i < values.len; ++i) {
     result.data[group_index.data[i]] = std::max(result.data[group_index.data[i]], values.data[i]);
@@ -149,7 +149,7 @@ VList GroupMin(VList values, U32ListStruct group_index, uint32_t distinct, void
   VList result;
   result.len = distinct;
   result.data = reinterpret_cast<V *>(exec_ctx->arena.Allocate(sizeof(V) * distinct));
-  V seed = std::numeric_limits<V>::max();
+  V seed = std::numeric_limits<V>::has_infinity ? std::numeric_limits<V>::infinity() : std::numeric_limits<V>::max();
   std::fill_n(result.data, distinct, seed);
   for (uint32_t i = 0; i < values.len; ++i) {
     result.data[group_index.data[i]] = std::min(result.data[group_index.data[i]], values.data[i]);
-- 
2.43.0


From 38b9d5cb5f9fadf964cd3df8e8d75ba41b0765c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 23/31] fix: group functions wrote outside their result for
 group ids not below the group count

---
 src/function/list_group.cc | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/function/list_group.cc b/src/function/list_group.cc
index 001e78f..6770c28 100644
--- a/src/function/list_group.cc
+++ b/src/function/list_group.cc
@@ -77,6 +77,18 @@ uint32_t GroupCount(U32ListStruct group_index) {
   return max_id + 1;
 }
 
+// The kernels write one slot per group, so every id has to be below `distinct`.
+bool CheckGroupIds(const char *name, U32ListStruct group_index, uint32_t distinct, ExecContext *exec_ctx) {
+  for (uint32_t i = 0; i < group_index.len; ++i) {
+    if (group_index.data[i] >= distinct) {
+      exec_ctx->AddError(std::string(name) + ": group id " + std::to_string(group_index.data[i]) +
+                         " out of range, group count: " + std::to_string(distinct));
+      return false;
+    }
+  }
+  return true;
+}
+
 template <typename KList>
 KList GroupKeys(KList keys, U32ListStruct group_index, uint32_t distinct, void *exec_context) {
   auto *exec_ctx = reinterpret_cast<ExecContext *>(exec_context);
@@ -85,6 +97,9 @@ KList GroupKeys(KList keys, U32ListStruct group_index, uint32_t distinct, void *
                        ", group_index len: " + std::to_string(group_index.len));
     return {nullptr, 0};
   }
+  if (!CheckGroupIds("GroupKeys", group_index, distinct, exec_ctx)) {
+    return {nullptr, 0};
+  }
   KList result;
   result.data = reinterpret_cast<typename KList::CElementType *>(
       exec_ctx->arena.Allocate(sizeof(typename KList::CElementType) * distinct));
@@ -107,6 +122,9 @@ AccList GroupSum(VList values, U32ListStruct group_index, uint32_t distinct, voi
                        ", group_index len: " + std::to_string(group_index.len));
     return {nullptr, 0};
   }
+  if (!CheckGroupIds("GroupSum", group_index, distinct, exec_ctx)) {
+    return {nullptr, 0};
+  }
   AccList result;
   result.len = distinct;
   result.data = reinterpret_cast<Acc *>(exec_ctx->arena.Allocate(sizeof(Acc) * distinct));
@@ -126,6 +144,9 @@ VList GroupMax(VList values, U32ListStruct group_index, uint32_t distinct, void
                        ", group_index len: " + std::to_string(group_index.len));
     return {nullptr, 0};
   }
+  if (!CheckGroupIds("GroupMax", group_index, distinct, exec_ctx)) {
+    return {nullptr, 0};
+  }
   VList result;
   result.len = distinct;
   result.data = reinterpret_cast<V *>(exec_ctx->arena.Allocate(sizeof(V) * distinct));
@@ -146,6 +167,9 @@ VList GroupMin(VList values, U32ListStruct group_index, uint32_t distinct, void
                        ", group_index len: " + std::to_string(group_index.len));
     return {nullptr, 0};
   }
+  if (!CheckGroupIds("GroupMin", group_index, distinct, exec_ctx)) {
+    return {nullptr, 0};
+  }
   VList result;
   result.len = distinct;
   result.data = reinterpret_cast<V *>(exec_ctx->arena.Allocate(sizeof(V) * distinct));
@@ -165,6 +189,9 @@ F64ListStruct GroupAvg(VList values, U32ListStruct group_index, uint32_t distinc
                        ", group_index len: " + std::to_string(group_index.len));
     return {nullptr, 0};
   }
+  if (!CheckGroupIds("GroupAvg", group_index, distinct, exec_ctx)) {
+    return {nullptr, 0};
+  }
   F64ListStruct result;
   result.len = distinct;
   result.data = reinterpret_cast<double *>(exec_ctx->arena.Allocate(sizeof(double) * distinct));
-- 
2.43.0


From ad9c47d228a05099800276f83120294cdaed9b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:53 +0000
Subject: [PATCH 24/31] fix: report an error from ExecuteAll when nothing is
 compiled

---
 src/batch_exec_engine.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/batch_exec_engine.cc b/src/batch_exec_engine.cc
index 099fab3..ddf3915 100644
--- a/src/batch_exec_engine.cc
+++ b/src/batch_exec_engine.cc
@@ -114,6 +114,9 @@ Status BatchExecEngine::ExecuteAt(size_t index, ExecContext& exec_ctx, void* ent
 }
 
 Status BatchExecEngine::ExecuteAll(void* entry_arguments, std::vector<RetType>* results) {
+  if (entry_func_ptrs_.empty()) {
+    return Status::RuntimeError("ExecuteAll: nothing compiled yet");
+  }
   results->resize(entry_func_ptrs_.size());
   std::string all_errors;
   for (size_t i = 0; i < entry_func_ptrs_.size(); ++i) {
@@ -132,6 +135,9 @@ Status BatchExecEngine::ExecuteAll(void* entry_arguments, std::vector<RetType>*
 }
 
 Status BatchExecEngine::ExecuteAll(ExecContext& exec_ctx, void* entry_arguments, std::vector<RetType>* results) {
+  if (entry_func_ptrs_.empty()) {
+    return Status::RuntimeError("ExecuteAll: nothing compiled yet");
+  }
   results->resize(entry_func_ptrs_.size());
   std::string all_errors;
   for (size_t i = 0; i < entry_func_ptrs_.size(); ++i) {
@@ -150,6 +156,9 @@ Status BatchExecEngine::ExecuteAll(ExecContext& exec_ctx, void* entry_arguments,
 }
 
 Status BatchExecEngine::ExecuteAll(void* entry_arguments, void* results) {
+  if (entry_func_ptrs_.empty()) {
+    return Status::RuntimeError("ExecuteAll: nothing compiled yet");
+  }
   std::string all_errors;
   for (size_t i = 0; i < entry_func_ptrs_.size(); ++i) {
     Status st = ExecuteAt(i, entry_arguments, results);
@@ -167,6 +176,9 @@ Status BatchExecEngine::ExecuteAll(void* entry_arguments, void* results) {
 }
 
 Status BatchExecEngine::ExecuteAll(ExecContext& exec_ctx, void* entry_arguments, void* results) {
+  if (entry_func_ptrs_.empty()) {
+    return Status::RuntimeError("ExecuteAll: nothing compiled yet");
+  }
   std::string all_errors;
   for (size_t i = 0; i < entry_func_ptrs_.size(); ++i) {
     Status st = ExecuteAt(i, exec_ctx, entry_arguments, results);
-- 
2.43.0


From 321b9141372115d8a9f3ed3ff59f81ca67e32031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:04 +0000
Subject: [PATCH 25/31] fix: drop the previous program when an empty batch is
 compiled

---
 src/batch_exec_engine.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/batch_exec_engine.cc b/src/batch_exec_engine.cc
index ddf3915..2786ce6 100644
--- a/src/batch_exec_engine.cc
+++ b/src/batch_exec_engine.cc
@@ -37,6 +37,7 @@ Status BatchExecEngine::Compile(const std::vector<std::unique_ptr<ExecNode>>& ex
   entry_func_ptrs_.clear();
   ret_types_.clear();
   if (exec_nodes.empty()) {
+    core_->Reset();
     return Status::ParseError("Compile: exec_nodes is empty");
   }
 
-- 
2.43.0


From 36721ea62cf299a177f9d568939779ec7729bae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:13 +0000
Subject: [PATCH 26/31] fix: refuse artifacts with an unknown return type code

---
 src/compiled_artifact.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compiled_artifact.cc b/src/compiled_artifact.cc
index 6374ea0..f65c8a8 100644
--- a/src/compiled_artifact.cc
+++ b/src/compiled_artifact.cc
@@ -262,6 +262,10 @@ Status DeserializeArtifact(std::string_view blob, ArtifactHeader* out_header, st
   for (std::uint32_t i = 0; i < num_entries; ++i) {
     std::uint8_t rt_byte = 0;
     JF_RETURN_NOT_OK(r.ReadU8(&rt_byte));
+    if (rt_byte < static_cast<std::uint8_t>(ValueType::kVoid) ||
+        rt_byte > static_cast<std::uint8_t>(ValueType::kStringList)) {
+      return Status::InvalidArgument("compiled artifact: unknown return type byte ", static_cast<int>(rt_byte));
+    }
     out_header->per_entry_ret_types[i] = static_cast<ValueType>(rt_byte);
   }
 
-- 
2.43.0


From 2f517fea895272270bddc417792d75ebc17a7391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:53 +0000
Subject: [PATCH 27/31] fix: keep the two forms of a function with an execution
 context apart in the JIT

---
 src/codegen/function_codegen.cc | 11 ++---------
 src/function_registry.cc        |  6 ------
 2 files changed, 2 insertions(+), 15 deletions(-)

diff --git a/src/codegen/function_codegen.cc b/src/codegen/function_codegen.cc
index 8dab42d..81236d4 100644
--- a/src/codegen/function_codegen.cc
+++ b/src/codegen/function_codegen.cc
@@ -73,17 +73,10 @@ Status CodeGen::Visit(FunctionNode& function_node) {
       value_ = func_struct.codegen_func(sign, args_llvm_type_list, args_llvm_value_list, ctx_);
     } break;
     case FunctionType::kCFunc: {
-      std::string call_symbol_name;
+      const std::string call_symbol_name = sign.ToString();
       if (func_struct.needs_exec_ctx) {
-        llvm::Type* ptr_ty = llvm::PointerType::getUnqual(ctx_.context);
-        args_llvm_type_list.emplace_back(ptr_ty);
+        args_llvm_type_list.emplace_back(llvm::PointerType::getUnqual(ctx_.context));
         args_llvm_value_list.emplace_back(ctx_.entry_function->getArg(1));
-        std::vector<ValueType> ctx_param_types = sign.GetParamTypes();
-        ctx_param_types.emplace_back(ValueType::kPtr);
-        FunctionSignature ctx_sign(sign.GetName(), std::move(ctx_param_types), sign.GetRetType());
-        call_symbol_name = ctx_sign.ToString();
-      } else {
-        call_symbol_name = sign.ToString();
       }
 
       llvm::Type* llvm_ret_type;
diff --git a/src/function_registry.cc b/src/function_registry.cc
index 5448dc3..dd4bbee 100644
--- a/src/function_registry.cc
+++ b/src/function_registry.cc
@@ -249,9 +249,6 @@ Status FunctionRegistry::SetCFuncAttr(llvm::Module* m) {
     if (FunctionType::kLLVMIntrinicFunc == fc.func_type) {
       continue;
     }
-    if (fc.needs_exec_ctx) {
-      continue;
-    }
     auto* func = m->getFunction(sign.ToString());
     if (func == nullptr) {
       continue;
@@ -271,9 +268,6 @@ Status FunctionRegistry::MappingToJIT(llvm::orc::LLJIT* jit) {
     if (FunctionType::kLLVMIntrinicFunc == fc.func_type) {
       continue;
     }
-    if (fc.needs_exec_ctx) {
-      continue;
-    }
     auto function_a_address = llvm::orc::ExecutorAddr::fromPtr(fc.c_func_ptr);
     symbols.try_emplace(mangle(sign.ToString()), function_a_address, llvm::JITSymbolFlags::Exported);
   }
-- 
2.43.0


From 619ff0feee7c0ba083a54f6855d8ba4a797e6603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:06 +0000
Subject: [PATCH 28/31] fix: track lines inside strings and columns after
 multi-line comments in the scanner

---
 athena/token.cc | 196 ++++++++++++++++++++++++------------------------
 athena/token.ll |  19 +++--
 2 files changed, 110 insertions(+), 105 deletions(-)

diff --git a/athena/token.cc b/athena/token.cc
index 5e9f3b6..0037a51 100644
--- a/athena/token.cc
+++ b/athena/token.cc
@@ -1,6 +1,6 @@
-#line 1 "token.cc"
+#line 2 "token.cc"
 
-#line 3 "token.cc"
+#line 4 "token.cc"
 
 #define  YY_INT_ALIGNED short int
 
@@ -257,7 +257,6 @@ typedef int16_t flex_int16_t;
 typedef uint16_t flex_uint16_t;
 typedef int32_t flex_int32_t;
 typedef uint32_t flex_uint32_t;
-typedef uint64_t flex_uint64_t;
 #else
 typedef signed char flex_int8_t;
 typedef short int flex_int16_t;
@@ -422,7 +421,7 @@ struct yy_buffer_state
 	/* Number of characters read into yy_ch_buf, not including EOB
 	 * characters.
 	 */
-	yy_size_t yy_n_chars;
+	int yy_n_chars;
 
 	/* Whether we "own" the buffer - i.e., we know we created it,
 	 * and can realloc() it to grow it, and should free() it to
@@ -499,7 +498,7 @@ static void yy_init_buffer ( YY_BUFFER_STATE b, FILE *file , yyscan_t yyscanner
 
 YY_BUFFER_STATE yy_scan_buffer ( char *base, yy_size_t size , yyscan_t yyscanner );
 YY_BUFFER_STATE yy_scan_string ( const char *yy_str , yyscan_t yyscanner );
-YY_BUFFER_STATE yy_scan_bytes ( const char *bytes, yy_size_t len , yyscan_t yyscanner );
+YY_BUFFER_STATE yy_scan_bytes ( const char *bytes, int len , yyscan_t yyscanner );
 
 void *yyalloc ( yy_size_t , yyscan_t yyscanner );
 void *yyrealloc ( void *, yy_size_t , yyscan_t yyscanner );
@@ -546,7 +545,7 @@ static void yynoreturn yy_fatal_error ( const char* msg , yyscan_t yyscanner );
  */
 #define YY_DO_BEFORE_ACTION \
 	yyg->yytext_ptr = yy_bp; \
-	yyleng = (yy_size_t) (yy_cp - yy_bp); \
+	yyleng = (int) (yy_cp - yy_bp); \
 	yyg->yy_hold_char = *yy_cp; \
 	*yy_cp = '\0'; \
 	yyg->yy_c_buf_p = yy_cp;
@@ -822,11 +821,19 @@ static const flex_int16_t yy_chk[277] =
 #define YY_NO_INPUT 1
 #line 94 "token.ll"
   // Code run each time a pattern is matched.
-  # define YY_USER_ACTION  loc.columns (yyleng);
+  // Strings and comments may span lines, so every matched newline starts a new line.
+  # define YY_USER_ACTION                                \
+    for (int i = 0; i < static_cast<int>(yyleng); ++i) {  \
+      if (yytext[i] == '\n') {                            \
+        loc.lines (1);                                    \
+      } else {                                            \
+        loc.columns (1);                                  \
+      }                                                   \
+    }
   // Code run when no pattern matches: report the character instead of flex's default of echoing it to stdout.
   # define ECHO throw athena::Parser::syntax_error(loc, "invalid character: " + std::string(yytext))
-#line 828 "token.cc"
-#line 829 "token.cc"
+#line 836 "token.cc"
+#line 837 "token.cc"
 
 #define INITIAL 0
 
@@ -855,8 +862,8 @@ struct yyguts_t
     size_t yy_buffer_stack_max; /**< capacity of stack. */
     YY_BUFFER_STATE * yy_buffer_stack; /**< Stack as an array. */
     char yy_hold_char;
-    yy_size_t yy_n_chars;
-    yy_size_t yyleng_r;
+    int yy_n_chars;
+    int yyleng_r;
     char *yy_c_buf_p;
     int yy_init;
     int yy_start;
@@ -903,7 +910,7 @@ FILE *yyget_out ( yyscan_t yyscanner );
 
 void yyset_out  ( FILE * _out_str , yyscan_t yyscanner );
 
-			yy_size_t yyget_leng ( yyscan_t yyscanner );
+			int yyget_leng ( yyscan_t yyscanner );
 
 char *yyget_text ( yyscan_t yyscanner );
 
@@ -974,7 +981,7 @@ static int input ( yyscan_t yyscanner );
 	if ( YY_CURRENT_BUFFER_LVALUE->yy_is_interactive ) \
 		{ \
 		int c = '*'; \
-		yy_size_t n; \
+		int n; \
 		for ( n = 0; n < max_size && \
 			     (c = getc( yyin )) != EOF && c != '\n'; ++n ) \
 			buf[n] = (char) c; \
@@ -1084,16 +1091,16 @@ YY_DECL
 		}
 
 	{
-#line 99 "token.ll"
+#line 107 "token.ll"
 
 
-#line 102 "token.ll"
+#line 110 "token.ll"
   // A handy shortcut to the location held by the Parser.
   athena::location& loc = builder.GetLocation();
   // Code run each time yylex is called.
   loc.step ();
 
-#line 1096 "token.cc"
+#line 1104 "token.cc"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -1148,333 +1155,328 @@ do_action:	/* This label is used only to access EOF actions. */
 
 case 1:
 YY_RULE_SETUP
-#line 107 "token.ll"
+#line 115 "token.ll"
 loc.step ();
 	YY_BREAK
 case 2:
 /* rule 2 can match eol */
 YY_RULE_SETUP
-#line 108 "token.ll"
-loc.lines (yyleng); loc.step ();
+#line 116 "token.ll"
+loc.step ();
 	YY_BREAK
 case 3:
 YY_RULE_SETUP
-#line 110 "token.ll"
+#line 118 "token.ll"
 loc.step ();
 	YY_BREAK
 case 4:
 /* rule 4 can match eol */
 YY_RULE_SETUP
-#line 111 "token.ll"
-{
-                                for (int i = 0; i < yyleng; ++i) {
-                                  if (yytext[i] == '\n') loc.lines(1);
-                                }
-                                loc.step();
-                              }
+#line 119 "token.ll"
+loc.step ();
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
-#line 118 "token.ll"
+#line 121 "token.ll"
 return  athena::Parser::make_LET                         (loc);
 	YY_BREAK
 case 6:
 YY_RULE_SETUP
-#line 119 "token.ll"
+#line 122 "token.ll"
 return  athena::Parser::make_WHEN                        (loc);
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
-#line 120 "token.ll"
+#line 123 "token.ll"
 return  athena::Parser::make_IF                          (loc);
 	YY_BREAK
 case 8:
 YY_RULE_SETUP
-#line 121 "token.ll"
+#line 124 "token.ll"
 return  athena::Parser::make_ELIF                        (loc);
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-#line 122 "token.ll"
+#line 125 "token.ll"
 return  athena::Parser::make_ELSE                        (loc);
 	YY_BREAK
 case 10:
 YY_RULE_SETUP
-#line 123 "token.ll"
+#line 126 "token.ll"
 return  athena::Parser::make_SWITCH                      (loc);
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-#line 124 "token.ll"
+#line 127 "token.ll"
 return  athena::Parser::make_LBRACE                      (loc);
 	YY_BREAK
 case 12:
 YY_RULE_SETUP
-#line 125 "token.ll"
+#line 128 "token.ll"
 return  athena::Parser::make_RBRACE                      (loc);
 	YY_BREAK
 case 13:
 YY_RULE_SETUP
-#line 126 "token.ll"
+#line 129 "token.ll"
 return  athena::Parser::make_SEMI                        (loc);
 	YY_BREAK
 case 14:
 YY_RULE_SETUP
-#line 128 "token.ll"
+#line 131 "token.ll"
 return  athena::Parser::make_IN                          (loc);      
 	YY_BREAK
 case 15:
 YY_RULE_SETUP
-#line 129 "token.ll"
+#line 132 "token.ll"
 return  athena::Parser::make_NOT                         (loc);     
 	YY_BREAK
 case 16:
 YY_RULE_SETUP
-#line 130 "token.ll"
+#line 133 "token.ll"
 return  athena::Parser::make_AND                         (loc);     
 	YY_BREAK
 case 17:
 YY_RULE_SETUP
-#line 131 "token.ll"
+#line 134 "token.ll"
 return  athena::Parser::make_OR                          (loc);      
 	YY_BREAK
 case 18:
 YY_RULE_SETUP
-#line 132 "token.ll"
+#line 135 "token.ll"
 return  athena::Parser::make_TRUE                        (loc);      
 	YY_BREAK
 case 19:
 YY_RULE_SETUP
-#line 133 "token.ll"
+#line 136 "token.ll"
 return  athena::Parser::make_FALSE                       (loc);      
 	YY_BREAK
 case 20:
 YY_RULE_SETUP
-#line 134 "token.ll"
+#line 137 "token.ll"
 return  athena::Parser::make_MINUS                       (loc);   
 	YY_BREAK
 case 21:
 YY_RULE_SETUP
-#line 135 "token.ll"
+#line 138 "token.ll"
 return  athena::Parser::make_PLUS                        (loc);    
 	YY_BREAK
 case 22:
 YY_RULE_SETUP
-#line 136 "token.ll"
+#line 139 "token.ll"
 return  athena::Parser::make_STAR                        (loc);    
 	YY_BREAK
 case 23:
 YY_RULE_SETUP
-#line 137 "token.ll"
+#line 140 "token.ll"
 return  athena::Parser::make_SLASH                       (loc);   
 	YY_BREAK
 case 24:
 YY_RULE_SETUP
-#line 138 "token.ll"
+#line 141 "token.ll"
 return  athena::Parser::make_LPAREN                      (loc);  
 	YY_BREAK
 case 25:
 YY_RULE_SETUP
-#line 139 "token.ll"
+#line 142 "token.ll"
 return  athena::Parser::make_RPAREN                      (loc);  
 	YY_BREAK
 case 26:
 YY_RULE_SETUP
-#line 140 "token.ll"
+#line 143 "token.ll"
 return  athena::Parser::make_MODOLO                      (loc);  
 	YY_BREAK
 case 27:
 YY_RULE_SETUP
-#line 141 "token.ll"
+#line 144 "token.ll"
 return  athena::Parser::make_BITWISE_OR                  (loc);
 	YY_BREAK
 case 28:
 YY_RULE_SETUP
-#line 142 "token.ll"
+#line 145 "token.ll"
 return  athena::Parser::make_BITWISE_XOR                 (loc);
 	YY_BREAK
 case 29:
 YY_RULE_SETUP
-#line 143 "token.ll"
+#line 146 "token.ll"
 return  athena::Parser::make_BITWISE_AND                 (loc);
 	YY_BREAK
 case 30:
 YY_RULE_SETUP
-#line 144 "token.ll"
+#line 147 "token.ll"
 return  athena::Parser::make_BITWISE_NOT                 (loc);
 	YY_BREAK
 case 31:
 YY_RULE_SETUP
-#line 145 "token.ll"
+#line 148 "token.ll"
 return  athena::Parser::make_EQUAL                       (loc);
 	YY_BREAK
 case 32:
 YY_RULE_SETUP
-#line 146 "token.ll"
+#line 149 "token.ll"
 return  athena::Parser::make_ASSIGNMENT                  (loc);
 	YY_BREAK
 case 33:
 YY_RULE_SETUP
-#line 147 "token.ll"
+#line 150 "token.ll"
 return  athena::Parser::make_NOT_EQUAL                   (loc);
 	YY_BREAK
 case 34:
 YY_RULE_SETUP
-#line 148 "token.ll"
+#line 151 "token.ll"
 return  athena::Parser::make_LESS_THAN                   (loc);
 	YY_BREAK
 case 35:
 YY_RULE_SETUP
-#line 149 "token.ll"
+#line 152 "token.ll"
 return  athena::Parser::make_LESS_THAN_OR_EQUAL_TO       (loc);
 	YY_BREAK
 case 36:
 YY_RULE_SETUP
-#line 150 "token.ll"
+#line 153 "token.ll"
 return  athena::Parser::make_GREATER_THAN                (loc);
 	YY_BREAK
 case 37:
 YY_RULE_SETUP
-#line 151 "token.ll"
+#line 154 "token.ll"
 return  athena::Parser::make_GREATER_THAN_OR_EQUAL_TO    (loc);
 	YY_BREAK
 case 38:
 YY_RULE_SETUP
-#line 152 "token.ll"
+#line 155 "token.ll"
 return  athena::Parser::make_COMMA                       (loc);
 	YY_BREAK
 case 39:
 YY_RULE_SETUP
-#line 153 "token.ll"
+#line 156 "token.ll"
 return  athena::Parser::make_LBRACKET                    (loc);
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
-#line 154 "token.ll"
+#line 157 "token.ll"
 return  athena::Parser::make_RBRACKET                    (loc);
 	YY_BREAK
 case 41:
 YY_RULE_SETUP
-#line 155 "token.ll"
+#line 158 "token.ll"
 return  athena::Parser::make_BITWISE_LEFT                (loc);
 	YY_BREAK
 case 42:
 YY_RULE_SETUP
-#line 156 "token.ll"
+#line 159 "token.ll"
 return  athena::Parser::make_BITWISE_RIGHT               (loc);
 	YY_BREAK
 case 43:
 YY_RULE_SETUP
-#line 158 "token.ll"
+#line 161 "token.ll"
 return  athena::Parser::make_ENTRY_ARG   (loc);
 	YY_BREAK
 case 44:
 YY_RULE_SETUP
-#line 159 "token.ll"
+#line 162 "token.ll"
 return  athena::Parser::make_EXEC_CTX    (loc);
 	YY_BREAK
 case 45:
 YY_RULE_SETUP
-#line 160 "token.ll"
+#line 163 "token.ll"
 return  athena::Parser::make_OUTPUT        (loc);
 	YY_BREAK
 case 46:
 YY_RULE_SETUP
-#line 162 "token.ll"
+#line 165 "token.ll"
 return  athena::Parser::make_IDENTIFIER (std::string(yytext), loc);
 	YY_BREAK
 case 47:
 YY_RULE_SETUP
-#line 164 "token.ll"
+#line 167 "token.ll"
 return  athena::Parser::make_I32 (std::stoull(yytext), loc);
 	YY_BREAK
 case 48:
 YY_RULE_SETUP
-#line 165 "token.ll"
+#line 168 "token.ll"
 return  athena::Parser::make_U8 (std::stoull(yytext), loc);
 	YY_BREAK
 case 49:
 YY_RULE_SETUP
-#line 166 "token.ll"
+#line 169 "token.ll"
 return  athena::Parser::make_U16 (std::stoull(yytext), loc);
 	YY_BREAK
 case 50:
 YY_RULE_SETUP
-#line 167 "token.ll"
+#line 170 "token.ll"
 return  athena::Parser::make_U32 (std::stoull(yytext), loc);
 	YY_BREAK
 case 51:
 YY_RULE_SETUP
-#line 168 "token.ll"
+#line 171 "token.ll"
 return  athena::Parser::make_U64 (std::stoull(yytext), loc);
 	YY_BREAK
 case 52:
 YY_RULE_SETUP
-#line 169 "token.ll"
+#line 172 "token.ll"
 return  athena::Parser::make_I8 (std::stoull(yytext), loc);
 	YY_BREAK
 case 53:
 YY_RULE_SETUP
-#line 170 "token.ll"
+#line 173 "token.ll"
 return  athena::Parser::make_I16 (std::stoull(yytext), loc);
 	YY_BREAK
 case 54:
 YY_RULE_SETUP
-#line 171 "token.ll"
+#line 174 "token.ll"
 return  athena::Parser::make_I32 (std::stoull(yytext), loc);
 	YY_BREAK
 case 55:
 YY_RULE_SETUP
-#line 172 "token.ll"
+#line 175 "token.ll"
 return  athena::Parser::make_I64 (std::stoull(yytext), loc);
 	YY_BREAK
 case 56:
 YY_RULE_SETUP
-#line 174 "token.ll"
+#line 177 "token.ll"
 return  athena::Parser::make_F64 (std::stod(yytext), loc);
 	YY_BREAK
 case 57:
 YY_RULE_SETUP
-#line 175 "token.ll"
+#line 178 "token.ll"
 return  athena::Parser::make_F32 (std::stof(yytext), loc);
 	YY_BREAK
 case 58:
 YY_RULE_SETUP
-#line 176 "token.ll"
+#line 179 "token.ll"
 return  athena::Parser::make_F64 (std::stod(yytext), loc);
 	YY_BREAK
 case 59:
 YY_RULE_SETUP
-#line 177 "token.ll"
+#line 180 "token.ll"
 return  athena::Parser::make_F32 (std::stof(yytext), loc);
 	YY_BREAK
 case 60:
 YY_RULE_SETUP
-#line 178 "token.ll"
+#line 181 "token.ll"
 return  athena::Parser::make_F64 (std::stod(yytext), loc);
 	YY_BREAK
 case 61:
 /* rule 61 can match eol */
 YY_RULE_SETUP
-#line 181 "token.ll"
+#line 184 "token.ll"
 return  athena::Parser::make_STRING (std::string(yytext + 1, yyleng - 2), loc);
 	YY_BREAK
 case 62:
 /* rule 62 can match eol */
 YY_RULE_SETUP
-#line 182 "token.ll"
+#line 185 "token.ll"
 return  athena::Parser::make_STRING (std::string(yytext + 1, yyleng - 2), loc);
 	YY_BREAK
 case YY_STATE_EOF(INITIAL):
-#line 184 "token.ll"
+#line 187 "token.ll"
 return  athena::Parser::make_YYEOF (loc);
 	YY_BREAK
 case 63:
 YY_RULE_SETUP
-#line 185 "token.ll"
+#line 188 "token.ll"
 ECHO;
 	YY_BREAK
-#line 1477 "token.cc"
+#line 1480 "token.cc"
 
 	case YY_END_OF_BUFFER:
 		{
@@ -1661,7 +1663,7 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 
 	else
 		{
-			yy_size_t num_to_read =
+			int num_to_read =
 			YY_CURRENT_BUFFER_LVALUE->yy_buf_size - number_to_move - 1;
 
 		while ( num_to_read <= 0 )
@@ -1675,7 +1677,7 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 
 			if ( b->yy_is_our_buffer )
 				{
-				yy_size_t new_size = b->yy_buf_size * 2;
+				int new_size = b->yy_buf_size * 2;
 
 				if ( new_size <= 0 )
 					b->yy_buf_size += b->yy_buf_size / 8;
@@ -1733,7 +1735,7 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 
 	if ((yyg->yy_n_chars + number_to_move) > YY_CURRENT_BUFFER_LVALUE->yy_buf_size) {
 		/* Extend the array by 50%, plus the number we really need. */
-		yy_size_t new_size = yyg->yy_n_chars + number_to_move + (yyg->yy_n_chars >> 1);
+		int new_size = yyg->yy_n_chars + number_to_move + (yyg->yy_n_chars >> 1);
 		YY_CURRENT_BUFFER_LVALUE->yy_ch_buf = (char *) yyrealloc(
 			(void *) YY_CURRENT_BUFFER_LVALUE->yy_ch_buf, (yy_size_t) new_size , yyscanner );
 		if ( ! YY_CURRENT_BUFFER_LVALUE->yy_ch_buf )
@@ -1840,7 +1842,7 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 
 		else
 			{ /* need more input */
-			yy_size_t offset = yyg->yy_c_buf_p - yyg->yytext_ptr;
+			int offset = (int) (yyg->yy_c_buf_p - yyg->yytext_ptr);
 			++yyg->yy_c_buf_p;
 
 			switch ( yy_get_next_buffer( yyscanner ) )
@@ -2218,12 +2220,12 @@ YY_BUFFER_STATE yy_scan_string (const char * yystr , yyscan_t yyscanner)
  * @param yyscanner The scanner object.
  * @return the newly allocated buffer state object.
  */
-YY_BUFFER_STATE yy_scan_bytes  (const char * yybytes, yy_size_t  _yybytes_len , yyscan_t yyscanner)
+YY_BUFFER_STATE yy_scan_bytes  (const char * yybytes, int  _yybytes_len , yyscan_t yyscanner)
 {
 	YY_BUFFER_STATE b;
 	char *buf;
 	yy_size_t n;
-	yy_size_t i;
+	int i;
     
 	/* Get memory for full buffer, including space for trailing EOB's. */
 	n = (yy_size_t) (_yybytes_len + 2);
@@ -2267,7 +2269,7 @@ static void yynoreturn yy_fatal_error (const char* msg , yyscan_t yyscanner)
 	do \
 		{ \
 		/* Undo effects of setting up yytext. */ \
-        yy_size_t yyless_macro_arg = (n); \
+        int yyless_macro_arg = (n); \
         YY_LESS_LINENO(yyless_macro_arg);\
 		yytext[yyleng] = yyg->yy_hold_char; \
 		yyg->yy_c_buf_p = yytext + yyless_macro_arg; \
@@ -2335,7 +2337,7 @@ FILE *yyget_out  (yyscan_t yyscanner)
 /** Get the length of the current token.
  * @param yyscanner The scanner object.
  */
-yy_size_t yyget_leng  (yyscan_t yyscanner)
+int yyget_leng  (yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
     return yyleng;
@@ -2604,7 +2606,7 @@ void yyfree (void * ptr , yyscan_t yyscanner)
 
 #define YYTABLES_NAME "yytables"
 
-#line 185 "token.ll"
+#line 188 "token.ll"
 
 
 jitfusion::Status athena::ProgramAstBuilder::Scan(const std::string &code) {
diff --git a/athena/token.ll b/athena/token.ll
index 0bb4b25..f55eef1 100644
--- a/athena/token.ll
+++ b/athena/token.ll
@@ -92,7 +92,15 @@ blank [ \t\r]
 
 %{
   // Code run each time a pattern is matched.
-  # define YY_USER_ACTION  loc.columns (yyleng);
+  // Strings and comments may span lines, so every matched newline starts a new line.
+  # define YY_USER_ACTION                                \
+    for (int i = 0; i < static_cast<int>(yyleng); ++i) {  \
+      if (yytext[i] == '\n') {                            \
+        loc.lines (1);                                    \
+      } else {                                            \
+        loc.columns (1);                                  \
+      }                                                   \
+    }
   // Code run when no pattern matches: report the character instead of flex's default of echoing it to stdout.
   # define ECHO throw athena::Parser::syntax_error(loc, "invalid character: " + std::string(yytext))
 %}
@@ -104,15 +112,10 @@ blank [ \t\r]
   loc.step ();
 %}
 {blank}+   loc.step ();
-\n+        loc.lines (yyleng); loc.step ();
+\n+        loc.step ();
 
 "//"[^\n]*                    loc.step ();
-"/*"([^*]|\*+[^*/])*\*+"/"   {
-                                for (int i = 0; i < yyleng; ++i) {
-                                  if (yytext[i] == '\n') loc.lines(1);
-                                }
-                                loc.step();
-                              }
+"/*"([^*]|\*+[^*/])*\*+"/"   loc.step ();
 
 "let"         return  athena::Parser::make_LET                         (loc);
 "when"        return  athena::Parser::make_WHEN                        (loc);
-- 
2.43.0


From e856f74a8a3a6a700e3aea3fc2dd9501336ad763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:01 +0000
Subject: [PATCH 29/31] fix: extend narrow integer arguments of called C
 functions

---
 src/function_registry.cc | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/function_registry.cc b/src/function_registry.cc
index dd4bbee..02423ff 100644
--- a/src/function_registry.cc
+++ b/src/function_registry.cc
@@ -60,6 +60,25 @@ struct StoreFunctionSetter {
   }
 };
 
+// A C caller extends integers narrower than an int, and callees compiled by clang rely on it.
+void SetNarrowIntegerExtension(const FunctionSignature& sign, llvm::Function* f) {
+  const auto& param_types = sign.GetParamTypes();
+  for (unsigned i = 0; i < param_types.size() && i < f->arg_size(); ++i) {
+    switch (param_types[i]) {
+      case ValueType::kI8:
+      case ValueType::kI16:
+        f->addParamAttr(i, llvm::Attribute::SExt);
+        break;
+      case ValueType::kU8:
+      case ValueType::kU16:
+        f->addParamAttr(i, llvm::Attribute::ZExt);
+        break;
+      default:
+        break;
+    }
+  }
+}
+
 FunctionSignature LegacyExecCtxSignature(const FunctionSignature& func_sign) {
   std::vector<ValueType> params = func_sign.GetParamTypes();
   params.emplace_back(ValueType::kPtr);
@@ -253,6 +272,7 @@ Status FunctionRegistry::SetCFuncAttr(llvm::Module* m) {
     if (func == nullptr) {
       continue;
     }
+    SetNarrowIntegerExtension(sign, func);
     if (fc.func_attr_setter) {
       fc.func_attr_setter(m, func);
     }
-- 
2.43.0


From 51b5a412f68b58f36d92110797ccf4d66cac5736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:52 +0000
Subject: [PATCH 30/31] fix: an arena is handed over instead of being copied
 with its chunks and objects

---
 include/arena.h | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/arena.h b/include/arena.h
index 3fb7da6..bac86f0 100644
--- a/include/arena.h
+++ b/include/arena.h
@@ -47,6 +47,30 @@ class Arena {
     RunFinalizers();
     ReleaseChunks(false);
   }
+  // The arena owns its chunks and the objects in them: they can be handed over to another arena but not shared with it.
+  Arena(const Arena&) = delete;
+  Arena& operator=(const Arena&) = delete;
+  Arena(Arena&& other) noexcept
+      : min_chunk_size_(other.min_chunk_size_),
+        total_bytes_(std::exchange(other.total_bytes_, 0)),
+        avail_bytes_(std::exchange(other.avail_bytes_, 0)),
+        avail_buf_(std::exchange(other.avail_buf_, nullptr)),
+        chunks_(std::exchange(other.chunks_, {})),
+        finalizers_(std::exchange(other.finalizers_, {})) {}
+  Arena& operator=(Arena&& other) noexcept {
+    if (this != &other) {
+      RunFinalizers();
+      ReleaseChunks(false);
+      min_chunk_size_ = other.min_chunk_size_;
+      total_bytes_ = std::exchange(other.total_bytes_, 0);
+      avail_bytes_ = std::exchange(other.avail_bytes_, 0);
+      avail_buf_ = std::exchange(other.avail_buf_, nullptr);
+      chunks_ = std::exchange(other.chunks_, {});
+      finalizers_ = std::exchange(other.finalizers_, {});
+    }
+    return *this;
+  }
+
   // Allocate buffer of requested size with the given alignment.
   // `size == 0` is a valid no-op and returns nullptr; callers treating an
   // empty buffer (empty list/string) as legal data rely on this. The
-- 
2.43.0


From 3dd9c4a62dc7ebe500b1d635720bef0d6e4001a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:52 +0000
Subject: [PATCH 31/31] fix: keep the source text alive in the locations of
 syntax tree nodes

---
 athena/ast_builder.cc | 6 +++---
 athena/ast_builder.h  | 7 ++++---
 athena/parser.hh      | 6 +++---
 athena/parser.yy      | 6 +++---
 include/exec_node.h   | 2 ++
 5 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/athena/ast_builder.cc b/athena/ast_builder.cc
index 16531cd..0a747cd 100644
--- a/athena/ast_builder.cc
+++ b/athena/ast_builder.cc
@@ -23,7 +23,7 @@ Status ProgramAstBuilder::BuildExpression(const std::string& code, std::unique_p
   block_stack_.clear();
   parser_error_message_.clear();
   custom_error_message_.clear();
-  source_code_ = code;
+  source_code_ = std::make_shared<const std::string>(code);
   build_mode_ = BuildMode::kExpression;
   location_.initialize(&code);
   if (auto st = Scan(code); !st.ok()) {
@@ -44,7 +44,7 @@ Status ProgramAstBuilder::BuildPipeline(const std::string& code, std::unique_ptr
   block_stack_.clear();
   parser_error_message_.clear();
   custom_error_message_.clear();
-  source_code_ = code;
+  source_code_ = std::make_shared<const std::string>(code);
   build_mode_ = BuildMode::kPipeline;
   location_.initialize(&code);
   if (auto st = Scan(code); !st.ok()) {
@@ -87,7 +87,7 @@ std::unique_ptr<ExecNode> ProgramAstBuilder::MakeRefNode(const std::string& var_
   // Variable not found — emit a diagnostic-style error with a source snippet
   // and caret underline, anchored at the identifier's location.
   jitfusion::Diagnostic diag(jitfusion::Diagnostic::Level::kError, "variable '" + var_name + "' is not defined",
-                             jitfusion::SourceLocation{source_code_, begin_line, begin_col, end_line, end_col});
+                             jitfusion::SourceLocation{*source_code_, begin_line, begin_col, end_line, end_col});
   custom_error_message_ = diag.Render();
   return nullptr;
 }
diff --git a/athena/ast_builder.h b/athena/ast_builder.h
index 8792579..027a1a3 100644
--- a/athena/ast_builder.h
+++ b/athena/ast_builder.h
@@ -7,7 +7,7 @@
 #pragma once
 
 #include <memory>
-#include <string_view>
+#include <string>
 #include <unordered_map>
 #include <vector>
 #include "exec_node.h"
@@ -54,7 +54,7 @@ class ProgramAstBuilder {
 
   location& GetLocation() { return location_; }
 
-  [[nodiscard]] std::string_view GetSourceCode() const { return source_code_; }
+  [[nodiscard]] const std::shared_ptr<const std::string>& GetSourceCode() const { return source_code_; }
 
  private:
   enum class BuildMode : uint8_t { kExpression, kPipeline };
@@ -65,7 +65,8 @@ class ProgramAstBuilder {
   std::unordered_map<std::string, uint32_t> var2index_;
   std::string parser_error_message_;
   std::string custom_error_message_;
-  std::string_view source_code_;
+  // shared with the locations of the nodes, which outlive the caller's text and this builder
+  std::shared_ptr<const std::string> source_code_;
   location location_;
   BuildMode build_mode_{BuildMode::kExpression};
 
diff --git a/athena/parser.hh b/athena/parser.hh
index 8037ed6..65c0031 100644
--- a/athena/parser.hh
+++ b/athena/parser.hh
@@ -68,10 +68,10 @@
   // every API.
   template <typename T, typename Loc>
   inline std::unique_ptr<jitfusion::ExecNode> WithLoc(std::unique_ptr<T> node, const Loc& l,
-                                                      std::string_view source_code) {
+                                                      const std::shared_ptr<const std::string>& source_code) {
     if (node) {
-      node->SetLocation({source_code, static_cast<int>(l.begin.line), static_cast<int>(l.begin.column),
-                         static_cast<int>(l.end.line), static_cast<int>(l.end.column)});
+      node->SetLocation({*source_code, static_cast<int>(l.begin.line), static_cast<int>(l.begin.column),
+                         static_cast<int>(l.end.line), static_cast<int>(l.end.column), source_code});
     }
     return node;
   }
diff --git a/athena/parser.yy b/athena/parser.yy
index deb48f7..97b3faa 100644
--- a/athena/parser.yy
+++ b/athena/parser.yy
@@ -32,10 +32,10 @@
   // every API.
   template <typename T, typename Loc>
   inline std::unique_ptr<jitfusion::ExecNode> WithLoc(std::unique_ptr<T> node, const Loc& l,
-                                                      std::string_view source_code) {
+                                                      const std::shared_ptr<const std::string>& source_code) {
     if (node) {
-      node->SetLocation({source_code, static_cast<int>(l.begin.line), static_cast<int>(l.begin.column),
-                         static_cast<int>(l.end.line), static_cast<int>(l.end.column)});
+      node->SetLocation({*source_code, static_cast<int>(l.begin.line), static_cast<int>(l.begin.column),
+                         static_cast<int>(l.end.line), static_cast<int>(l.end.column), source_code});
     }
     return node;
   }
diff --git a/include/exec_node.h b/include/exec_node.h
index f71e0df..51a2fae 100644
--- a/include/exec_node.h
+++ b/include/exec_node.h
@@ -25,6 +25,8 @@ struct SourceLocation {
   int begin_col{0};
   int end_line{0};
   int end_col{0};
+  // Keeps the text behind `source_code` alive for as long as the location is.
+  std::shared_ptr<const std::string> source_owner{};
 
   [[nodiscard]] bool Valid() const { return begin_line > 0; }
 };
-- 
2.43.0

