From 78d311cd129a29aec713be6d12cf94211d25899c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:05 +0000
Subject: [PATCH 01/20] fix: memo table key lost its first half when the second
 was negative

---
 cmmc/Runtime/cmmc_sysy_rt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmc/Runtime/cmmc_sysy_rt.cpp b/cmmc/Runtime/cmmc_sysy_rt.cpp
index b98b724..880d577 100644
--- a/cmmc/Runtime/cmmc_sysy_rt.cpp
+++ b/cmmc/Runtime/cmmc_sysy_rt.cpp
@@ -271,7 +271,7 @@ struct LUTEntry final {
 };
 static_assert(sizeof(LUTEntry) == sizeof(uint32_t) * 4);
 LUTEntry* cmmcCacheLookup(LUTEntry* table, int key1, int key2) {
-    const auto key = static_cast<uint64_t>(key1) << 32 | static_cast<uint64_t>(key2);
+    const auto key = static_cast<uint64_t>(key1) << 32 | static_cast<uint64_t>(static_cast<uint32_t>(key2));
     const auto ha = key % m1, hb = 1 + key % m2;
     auto cur = ha;
     constexpr uint32_t maxLookupCount = 5;
-- 
2.43.0


From 29937b81489aaf0077bd9a44d4e88ff20497aebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 02/20] fix: parallel loop body saw a shifted secondary
 induction variable when the loop does not start at 0

---
 cmmc/Transforms/Loop/LoopParallel.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmmc/Transforms/Loop/LoopParallel.cpp b/cmmc/Transforms/Loop/LoopParallel.cpp
index 82bdece..9e85263 100644
--- a/cmmc/Transforms/Loop/LoopParallel.cpp
+++ b/cmmc/Transforms/Loop/LoopParallel.cpp
@@ -361,7 +361,13 @@ class LoopParallel final : public TransformPass<Function> {
             Value* givPtr = nullptr;
             if(giv && (bodyInfo.recUsedByOuter || bodyInfo.recUsedByInner)) {
                 givPtr = builder.makeOp<PtrAddInst>(payloadStorage, givOffset, PointerType::get(giv->getType()));
-                builder.makeOp<StoreInst>(givPtr, bodyInfo.rec);
+                Value* initial = bodyInfo.rec;
+                if(bodyInfo.recUsedByInner && giv->getType()->isSame(i32)) {
+                    // The body computes giv from indvar, so pass the value extrapolated to indvar = 0.
+                    const auto offset = builder.makeOp<BinaryInst>(InstructionID::Mul, bodyInfo.indvar, bodyInfo.recInnerStep);
+                    initial = builder.makeOp<BinaryInst>(InstructionID::Sub, bodyInfo.rec, offset);
+                }
+                builder.makeOp<StoreInst>(givPtr, initial);
             }
             for(auto [k, v] : payload) {
                 const auto ptr = builder.makeOp<PtrAddInst>(payloadStorage, ConstantInteger::get(i32, static_cast<intmax_t>(v)),
-- 
2.43.0


From 21de6506f44ed2f17cff206340da9799e0575e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 03/20] fix: do not parallelize loops that call memoised
 functions, whose tables are not synchronized

---
 cmmc/Transforms/Loop/LoopBodyExtract.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/cmmc/Transforms/Loop/LoopBodyExtract.cpp b/cmmc/Transforms/Loop/LoopBodyExtract.cpp
index 55f281c..c254440 100644
--- a/cmmc/Transforms/Loop/LoopBodyExtract.cpp
+++ b/cmmc/Transforms/Loop/LoopBodyExtract.cpp
@@ -36,6 +36,7 @@
 #include <iterator>
 #include <ratio>
 #include <unordered_map>
+#include <unordered_set>
 #include <vector>
 
 CMMC_NAMESPACE_BEGIN
@@ -80,6 +81,23 @@ static bool matchAddRec(Value* giv, Block* latch, std::unordered_set<Value*>& va
     return false;
 }
 
+// The look-up tables of memoised functions are shared by all callers without synchronization.
+static bool usesLookupTable(Function& func, std::unordered_set<Function*>& visited) {
+    if(!visited.insert(&func).second)
+        return false;
+    if(func.getSymbol().prefix() == "cmmcCacheLookup")
+        return true;
+    for(auto block : func.blocks())
+        for(auto& inst : block->instructions()) {
+            if(inst.getInstID() != InstructionID::Call)
+                continue;
+            const auto callee = inst.lastOperand();
+            if(callee->is<Function>() && usesLookupTable(*callee->as<Function>(), visited))
+                return true;
+        }
+    return false;
+}
+
 bool extractLoopBody(Function& func, const Loop& loop, const DominateAnalysisResult& dom, const CFGAnalysisResult& cfg,
                      Module& mod, bool independent, const PointerBaseAnalysisResult* pointerBase, bool allowInnermost,
                      bool allowInnerLoop, bool onlyAddRec, bool estimateBlockSizeForUnroll, bool needSubLoop,
@@ -225,6 +243,7 @@ bool extractLoopBody(Function& func, const Loop& loop, const DominateAnalysisRes
 
     if(independent) {
         std::unordered_map<Value*, uint32_t> loadStoreMap;
+        std::unordered_set<Function*> visitedCallees;
         for(auto b : body)
             for(auto& inst : b->instructions()) {
                 if(inst.isTerminator())
@@ -239,6 +258,9 @@ bool extractLoopBody(Function& func, const Loop& loop, const DominateAnalysisRes
                     loadStoreMap[base] |= (inst.getInstID() == InstructionID::Load ? 1 : 2);
                 } else if(!isNoSideEffectExpr(inst)) {
                     return false;
+                } else if(inst.getInstID() == InstructionID::Call &&
+                          usesLookupTable(*inst.lastOperand()->as<Function>(), visitedCallees)) {
+                    return false;
                 }
             }
         std::vector<std::pair<Instruction*, Instruction*>> workList;
-- 
2.43.0


From 99e69bb130c41df8a5e3c9042eff9c37f239cef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 04/20] fix: parallel for split ranges near the limits of int32
 wrongly

---
 cmmc/Runtime/cmmc_sysy_rt.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cmmc/Runtime/cmmc_sysy_rt.cpp b/cmmc/Runtime/cmmc_sysy_rt.cpp
index 880d577..475b793 100644
--- a/cmmc/Runtime/cmmc_sysy_rt.cpp
+++ b/cmmc/Runtime/cmmc_sysy_rt.cpp
@@ -207,7 +207,7 @@ static ParallelForEntry& selectNumberOfThreads(CmmcForLoop func, uint32_t size,
 void cmmcParallelFor(int32_t beg, int32_t end, CmmcForLoop func) {
     if(end <= beg)
         return;
-    const auto size = static_cast<uint32_t>(end - beg);
+    const auto size = static_cast<uint32_t>(end) - static_cast<uint32_t>(beg);
     constexpr uint32_t smallTask = 16;
     if(size < smallTask) {
         func(beg, end);
@@ -224,11 +224,12 @@ void cmmcParallelFor(int32_t beg, int32_t end, CmmcForLoop func) {
         std::atomic_thread_fence(std::memory_order_seq_cst);
 
         constexpr uint32_t alignment = 4;
-        const auto inc = static_cast<int32_t>(((size / threads) + alignment - 1) / alignment * alignment);
+        // 64-bit, since subranges of a range near the limits of int32_t may overflow
+        const auto inc = static_cast<int64_t>(((size / threads) + alignment - 1) / alignment * alignment);
         std::array<bool, maxThreads> assigned{};
         for(int32_t i = 0; i < static_cast<int32_t>(threads); ++i) {
             const auto subBeg = beg + i * inc;
-            auto subEnd = std::min(subBeg + inc, end);
+            auto subEnd = std::min(subBeg + inc, static_cast<int64_t>(end));
             if(static_cast<uint32_t>(i) == threads - 1)
                 subEnd = end;
             if(subBeg >= subEnd)
@@ -237,8 +238,8 @@ void cmmcParallelFor(int32_t beg, int32_t end, CmmcForLoop func) {
             // cmmc_exec_for(subBeg, subEnd, func, payload);
             auto& worker = workers[static_cast<size_t>(i)];
             worker.func = func;
-            worker.beg = subBeg;
-            worker.end = subEnd;
+            worker.beg = static_cast<int32_t>(subBeg);
+            worker.end = static_cast<int32_t>(subEnd);
             // signal worker
             worker.ready.post();
             assigned[static_cast<size_t>(i)] = true;
-- 
2.43.0


From 7feee6689fd295611c952b3861d82a9658db9ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 05/20] fix: programs hung or crashed when a worker thread
 could not be created

---
 cmmc/Runtime/cmmc_sysy_rt.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cmmc/Runtime/cmmc_sysy_rt.cpp b/cmmc/Runtime/cmmc_sysy_rt.cpp
index 475b793..5bd74c6 100644
--- a/cmmc/Runtime/cmmc_sysy_rt.cpp
+++ b/cmmc/Runtime/cmmc_sysy_rt.cpp
@@ -105,11 +105,16 @@ __attribute((constructor)) void cmmcInitRuntime() {
         worker.run = 1;
         worker.stack = mmap(nullptr, stackSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_STACK, -1, 0);
         worker.core = i;
+        worker.pid = -1;
+        if(worker.stack == MAP_FAILED)
+            continue;
         worker.pid = clone(cmmcWorker, static_cast<uint8_t*>(worker.stack) + stackSize, threadCreationFlags, &worker);
     }
 }
 __attribute((destructor)) void cmmcUninitRuntime() {
     for(auto& worker : workers) {
+        if(worker.pid == -1)
+            continue;
         worker.run = 0;
         worker.ready.post();
         waitpid(worker.pid, nullptr, 0);
@@ -237,6 +242,11 @@ void cmmcParallelFor(int32_t beg, int32_t end, CmmcForLoop func) {
             // fprintf(stderr, "launch %d %d\n", subBeg, subEnd);
             // cmmc_exec_for(subBeg, subEnd, func, payload);
             auto& worker = workers[static_cast<size_t>(i)];
+            if(worker.pid == -1) {
+                // failed to create this worker
+                func(static_cast<int32_t>(subBeg), static_cast<int32_t>(subEnd));
+                continue;
+            }
             worker.func = func;
             worker.beg = static_cast<int32_t>(subBeg);
             worker.end = static_cast<int32_t>(subEnd);
-- 
2.43.0


From fe591b5785163be92cf73f832a58a025597fd024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:49 +0000
Subject: [PATCH 06/20] fix: nested calls of a memoised function took over the
 table entry of an unfinished call

---
 cmmc/Runtime/cmmc_sysy_rt.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/cmmc/Runtime/cmmc_sysy_rt.cpp b/cmmc/Runtime/cmmc_sysy_rt.cpp
index 5bd74c6..530180f 100644
--- a/cmmc/Runtime/cmmc_sysy_rt.cpp
+++ b/cmmc/Runtime/cmmc_sysy_rt.cpp
@@ -281,6 +281,10 @@ struct LUTEntry final {
     int hasVal;
 };
 static_assert(sizeof(LUTEntry) == sizeof(uint32_t) * 4);
+// A call that misses owns its entry until it returns and stores its result there. Such an entry has
+// hasVal == 0 and val == pending, and must not be given to nested calls.
+constexpr int pending = 1;
+static LUTEntry uncached;
 LUTEntry* cmmcCacheLookup(LUTEntry* table, int key1, int key2) {
     const auto key = static_cast<uint64_t>(key1) << 32 | static_cast<uint64_t>(static_cast<uint32_t>(key2));
     const auto ha = key % m1, hb = 1 + key % m2;
@@ -290,7 +294,10 @@ LUTEntry* cmmcCacheLookup(LUTEntry* table, int key1, int key2) {
     while(true) {
         auto& ref = table[cur];
         if(!ref.hasVal) {
+            if(ref.val == pending)
+                break;
             ref.key = key;
+            ref.val = pending;
             return &ref;
         }
         if(ref.key == key) {
@@ -302,9 +309,15 @@ LUTEntry* cmmcCacheLookup(LUTEntry* table, int key1, int key2) {
         if(cur >= m1)
             cur -= m1;
     }
-    // evict, FIFO
     auto& ref = table[ha];
+    if(!ref.hasVal) {
+        // in use by an unfinished call
+        uncached.hasVal = 0;
+        return &uncached;
+    }
+    // evict, FIFO
     ref.hasVal = 0;
+    ref.val = pending;
     ref.key = key;
     return &ref;
 }
-- 
2.43.0


From 8ea737ed9ceafb4fb44d3da518ba4948a33c0b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:11 +0000
Subject: [PATCH 07/20] fix: time budgets followed the wall clock, so setting
 it could end optimisation or an interpreted program early

---
 cmmc/Support/Profiler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmc/Support/Profiler.hpp b/cmmc/Support/Profiler.hpp
index d95919f..edcdd5b 100644
--- a/cmmc/Support/Profiler.hpp
+++ b/cmmc/Support/Profiler.hpp
@@ -24,7 +24,7 @@
 
 CMMC_NAMESPACE_BEGIN
 
-using Clock = std::chrono::high_resolution_clock;
+using Clock = std::chrono::steady_clock;
 using Duration = Clock::duration;
 using TimePoint = Clock::time_point;
 
-- 
2.43.0


From 8ec72974841873bb7a8b7aa8c989120d74c804ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:11 +0000
Subject: [PATCH 08/20] fix: a compile that could not write its output reported
 success

---
 cmmc/Driver/CMMCDriver.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/cmmc/Driver/CMMCDriver.cpp b/cmmc/Driver/CMMCDriver.cpp
index 64d0be9..832ce42 100644
--- a/cmmc/Driver/CMMCDriver.cpp
+++ b/cmmc/Driver/CMMCDriver.cpp
@@ -128,6 +128,15 @@ static std::string getOutputPath(const std::string& defaultPath) {
     return path.empty() ? defaultPath : path;
 }
 
+static int finishOutput(std::ofstream& out, const std::string& path) {
+    out.close();
+    if(out.fail()) {
+        reportError() << "Failed to write the output file "sv << path << std::endl;
+        return EXIT_FAILURE;
+    }
+    return EXIT_SUCCESS;
+}
+
 static int runIRPipeline(Module& module, const std::string& base, const std::string& filePath, FrontEndLang lang) {
     initTune(filePath, mir::targetName.get());
     if(!module.verify(std::cerr)) {
@@ -152,7 +161,7 @@ static int runIRPipeline(Module& module, const std::string& base, const std::str
         reportDebug() << "emitIR >> "sv << path << std::endl;
         std::ofstream out{ path };
         module.dump(out);
-        return EXIT_SUCCESS;
+        return finishOutput(out, path);
     }
 
     if(auto& input = executeInput.get(false); !input.empty()) {
@@ -197,7 +206,7 @@ static int runIRPipeline(Module& module, const std::string& base, const std::str
         target.emitAssembly(*machineModule, out, runtime);
     }
 
-    return EXIT_SUCCESS;
+    return finishOutput(out, path);
 }
 
 static bool endswith(const std::string& str, const std::string_view& ext) {
@@ -279,7 +288,7 @@ int mainImpl(int argc, char** argv) {
                     reportDebug() << "emitAST >> "sv << outputFilePath << std::endl;
                     std::ofstream out{ outputFilePath };
                     driver.dump(out);
-                    return EXIT_SUCCESS;
+                    return finishOutput(out, outputFilePath);
                 }
 
                 driver.emit(module);
-- 
2.43.0


From 93f57b8f4ce7096d6eec01a0bf0ae5a7fcfb2ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:11 +0000
Subject: [PATCH 09/20] fix: interpreted programs ignored input and output
 errors

---
 cmmc/Driver/CMMCDriver.cpp           |  8 ++++++++
 cmmc/ExecutionEngine/Interpreter.cpp | 14 +++++++++++++-
 cmmc/ExecutionEngine/Interpreter.hpp |  5 +++++
 3 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/cmmc/Driver/CMMCDriver.cpp b/cmmc/Driver/CMMCDriver.cpp
index 832ce42..4f4d4fb 100644
--- a/cmmc/Driver/CMMCDriver.cpp
+++ b/cmmc/Driver/CMMCDriver.cpp
@@ -172,6 +172,14 @@ static int runIRPipeline(Module& module, const std::string& base, const std::str
         SimulationIOContext ctx{ in, out };
 
         auto ret = runMain(module, ctx, filePath);
+        if(in.hasError()) {
+            reportError() << "Failed to read the input file "sv << input << std::endl;
+            ret = EXIT_FAILURE;
+        }
+        if(!out.finish()) {
+            reportError() << "Failed to write the output file "sv << path << std::endl;
+            ret = EXIT_FAILURE;
+        }
         return ret.value_or(EXIT_FAILURE);
     }
 
diff --git a/cmmc/ExecutionEngine/Interpreter.cpp b/cmmc/ExecutionEngine/Interpreter.cpp
index a7f99ef..533ad9c 100644
--- a/cmmc/ExecutionEngine/Interpreter.cpp
+++ b/cmmc/ExecutionEngine/Interpreter.cpp
@@ -1200,7 +1200,15 @@ OutputStream::OutputStream(const std::string& path) {
 }
 
 OutputStream::~OutputStream() {
-    fclose(mFile);  // NOLINT
+    if(mFile)
+        fclose(mFile);  // NOLINT
+}
+
+bool OutputStream::finish() {
+    const auto hasError = ferror(mFile) != 0;
+    const auto closeFailed = fclose(mFile) != 0;  // NOLINT
+    mFile = nullptr;
+    return !hasError && !closeFailed;
 }
 
 InputStream::InputStream(const std::string& path) {
@@ -1209,6 +1217,10 @@ InputStream::InputStream(const std::string& path) {
         DiagnosticsContext::get().attach<Reason>("Failed to open input file").reportFatal();
 }
 
+bool InputStream::hasError() const {
+    return ferror(mFile) != 0;
+}
+
 InputStream::~InputStream() {
     fclose(mFile);  // NOLINT
 }
diff --git a/cmmc/ExecutionEngine/Interpreter.hpp b/cmmc/ExecutionEngine/Interpreter.hpp
index 51ef514..0ce62d5 100644
--- a/cmmc/ExecutionEngine/Interpreter.hpp
+++ b/cmmc/ExecutionEngine/Interpreter.hpp
@@ -50,6 +50,8 @@ public:
     InputStream& operator=(InputStream&&) = delete;
     ~InputStream();
 
+    [[nodiscard]] bool hasError() const;
+
     template <typename... T>
     void get(const char* fmt, T&... args) {
         int ret = std::fscanf(mFile, fmt, &args...);
@@ -68,6 +70,9 @@ public:
     OutputStream& operator=(OutputStream&&) = delete;
     ~OutputStream();
 
+    // closes the file, returns false if anything could not be written
+    [[nodiscard]] bool finish();
+
     template <typename... T>
     void put(const char* fmt, T... args) {
         int ret = std::fprintf(mFile, fmt, args...);
-- 
2.43.0


From bfe1b4ab198b84e188ea9b6a208800e94b63f140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:11 +0000
Subject: [PATCH 10/20] fix: a read error in a TAC file was taken for its end

---
 cmmc/Conversion/TAC.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmmc/Conversion/TAC.cpp b/cmmc/Conversion/TAC.cpp
index b2dc991..54c174c 100644
--- a/cmmc/Conversion/TAC.cpp
+++ b/cmmc/Conversion/TAC.cpp
@@ -51,6 +51,9 @@ void loadTAC(Module& module, const std::string& path) {
     }
 
     const auto seq = readTACSeq(in);
+    if(in.bad()) {
+        DiagnosticsContext::get().attach<Reason>("Failed to read the source file").attach<Reason>(path).reportFatal();
+    }
 
     IRBuilder builder{ module.getTarget() };
     std::unordered_map<String, Function*, StringHasher> callables;
-- 
2.43.0


From ba0f21fad0cca101052f833fc36965515e3168e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:56 +0000
Subject: [PATCH 11/20] fix: the interpreter crashed instead of reporting that
 its memory limit is exceeded

---
 cmmc/ExecutionEngine/Interpreter.cpp | 37 +++++++++++++++++++---------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/cmmc/ExecutionEngine/Interpreter.cpp b/cmmc/ExecutionEngine/Interpreter.cpp
index 533ad9c..d69a2a1 100644
--- a/cmmc/ExecutionEngine/Interpreter.cpp
+++ b/cmmc/ExecutionEngine/Interpreter.cpp
@@ -82,6 +82,7 @@ using OperandStorage =
 // Byte-level simulation
 class MemoryContext final {
     using ByteStorage = std::pair<ByteState, std::byte>;
+    using Storage = std::deque<ByteStorage>;  // grows without a second copy of its content
     static_assert(sizeof(ByteStorage) == 2);
     static_assert(sizeof(uintptr_t) == 8);
 
@@ -93,20 +94,20 @@ class MemoryContext final {
     size_t mBudget;
     const DataLayout& mDataLayout;
     bool mHasMemoryError = false;
-    std::vector<ByteStorage> mGlobalStorage;
+    bool mIsBudgetExceeded = false;
+    Storage mGlobalStorage;
     std::unordered_map<GlobalVariable*, uintptr_t> mGlobalAlloc;
-    std::vector<ByteStorage> mStackStorage;
+    Storage mStackStorage;
     std::vector<std::pair<uintptr_t, uintptr_t>> mStackAlloc;  // [begin, end)
     std::unordered_set<uintptr_t> mPopedStackPtr;
     size_t mLoadMemFootprint = 0;
     size_t mStoreMemFootprint = 0;
 
-    static void extendTo(std::vector<ByteStorage>& storage, size_t size) {
-        storage.reserve(size);
-        while(storage.size() < size)
-            storage.push_back(invalidByteStorage);
+    static void extendTo(Storage& storage, size_t size) {
+        if(storage.size() < size)
+            storage.resize(size, invalidByteStorage);
     }
-    static uintptr_t paddingTo(std::vector<ByteStorage>& storage, size_t base, size_t alignment) {
+    static uintptr_t paddingTo(Storage& storage, size_t base, size_t alignment) {
         const auto pos = (base / alignment + 1) * alignment;
         extendTo(storage, pos);
         for(size_t idx = base; idx != pos; ++idx) {
@@ -114,21 +115,29 @@ class MemoryContext final {
         }
         return pos;
     }
-    static void setTag(std::vector<ByteStorage>& storage, size_t base, size_t size, ByteState tag) {
+    static void setTag(Storage& storage, size_t base, size_t size, ByteState tag) {
         extendTo(storage, base + size);
         for(size_t idx = 0; idx != size; ++idx)
             storage[base + idx].first = tag;
     }
 
-    static void removeTag(std::vector<ByteStorage>& storage, size_t base, size_t size, ByteState tag) {
+    static void removeTag(Storage& storage, size_t base, size_t size, ByteState tag) {
         extendTo(storage, base + size);
         for(size_t idx = 0; idx != size; ++idx)
             storage[base + idx].first &= ~tag;
     }
+    // An object must not be created if it would exceed the budget.
+    bool checkBudget(const Storage& storage, size_t base, size_t size, size_t alignment) {
+        const auto budget = mBudget / sizeof(ByteStorage);
+        const auto used = mGlobalStorage.size() + mStackStorage.size() - storage.size();
+        if(used > budget || base + alignment + size > budget - used)
+            mIsBudgetExceeded = true;
+        return !mIsBudgetExceeded;
+    }
     void triggerMemoryError() {
         mHasMemoryError = true;
     }
-    std::byte load(std::vector<ByteStorage>& storage, uintptr_t ptr) {
+    std::byte load(Storage& storage, uintptr_t ptr) {
         ++mLoadMemFootprint;
 
         if(ptr < storage.size()) {
@@ -139,7 +148,7 @@ class MemoryContext final {
         triggerMemoryError();
         return invalidByte;
     }
-    void store(std::vector<ByteStorage>& storage, uintptr_t ptr, std::byte val) {
+    void store(Storage& storage, uintptr_t ptr, std::byte val) {
         ++mStoreMemFootprint;
 
         if(ptr < storage.size()) {
@@ -157,7 +166,7 @@ public:
         mStackAlloc.emplace_back(0U, 16U);  // start
     }
     bool isExceeded() const noexcept {
-        return (mGlobalStorage.size() + mStackStorage.size()) * sizeof(ByteStorage) > mBudget;
+        return mIsBudgetExceeded || (mGlobalStorage.size() + mStackStorage.size()) * sizeof(ByteStorage) > mBudget;
     }
     bool hasException() const noexcept {
         return mHasMemoryError;
@@ -172,6 +181,8 @@ public:
         const auto storageType = var->getType()->as<PointerType>()->getPointee();
         const auto alignment = storageType->getAlignment(mDataLayout);
         const auto size = storageType->getSize(mDataLayout);
+        if(!checkBudget(mGlobalStorage, mGlobalStorage.size(), size, alignment))
+            return globalOffset;
         const auto ptr = paddingTo(mGlobalStorage, mGlobalStorage.size(), alignment);
         setTag(mGlobalStorage, ptr, size, ByteState::Read | ByteState::Write);
         if(var->initialValue()) {
@@ -195,6 +206,8 @@ public:
         assert(!mStackAlloc.empty());
         const auto [beg, end] = mStackAlloc.back();
         CMMC_UNUSED(beg);
+        if(!checkBudget(mStackStorage, end, size, alignment))
+            return stackOffset;
         const auto ptr = paddingTo(mStackStorage, end, alignment);
         setTag(mStackStorage, ptr, size, ByteState::Read | ByteState::Write);
         mStackAlloc.emplace_back(ptr, ptr + size);
-- 
2.43.0


From d7f0a6d22a92970216a4455cfea1b6a5a16bfe2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:52 +0000
Subject: [PATCH 12/20] fix: do not parallelize loops that store to the same
 place in every iteration

---
 cmmc/Transforms/Loop/LoopBodyExtract.cpp | 26 ++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/cmmc/Transforms/Loop/LoopBodyExtract.cpp b/cmmc/Transforms/Loop/LoopBodyExtract.cpp
index c254440..e5506c9 100644
--- a/cmmc/Transforms/Loop/LoopBodyExtract.cpp
+++ b/cmmc/Transforms/Loop/LoopBodyExtract.cpp
@@ -98,6 +98,19 @@ static bool usesLookupTable(Function& func, std::unordered_set<Function*>& visit
     return false;
 }
 
+// Whether the value is computed from the induction variable (or another recurrence) of the loop
+static bool isComputedFrom(Value* val, const std::unordered_set<Block*>& body, const std::unordered_set<Value*>& sources,
+                           std::unordered_set<Value*>& visited) {
+    if(sources.count(val))
+        return true;
+    if(!val->isInstruction() || !body.count(val->getBlock()) || !visited.insert(val).second)
+        return false;
+    for(auto operand : val->as<Instruction>()->operands())
+        if(isComputedFrom(operand, body, sources, visited))
+            return true;
+    return false;
+}
+
 bool extractLoopBody(Function& func, const Loop& loop, const DominateAnalysisResult& dom, const CFGAnalysisResult& cfg,
                      Module& mod, bool independent, const PointerBaseAnalysisResult* pointerBase, bool allowInnermost,
                      bool allowInnerLoop, bool onlyAddRec, bool estimateBlockSizeForUnroll, bool needSubLoop,
@@ -244,6 +257,7 @@ bool extractLoopBody(Function& func, const Loop& loop, const DominateAnalysisRes
     if(independent) {
         std::unordered_map<Value*, uint32_t> loadStoreMap;
         std::unordered_set<Function*> visitedCallees;
+        std::vector<std::pair<Value*, Value*>> stores;
         for(auto b : body)
             for(auto& inst : b->instructions()) {
                 if(inst.isTerminator())
@@ -255,6 +269,9 @@ bool extractLoopBody(Function& func, const Loop& loop, const DominateAnalysisRes
                         return false;
                     }
 
+                    if(inst.getInstID() == InstructionID::Store)
+                        stores.emplace_back(base, ptr);
+
                     loadStoreMap[base] |= (inst.getInstID() == InstructionID::Load ? 1 : 2);
                 } else if(!isNoSideEffectExpr(inst)) {
                     return false;
@@ -263,6 +280,15 @@ bool extractLoopBody(Function& func, const Loop& loop, const DominateAnalysisRes
                     return false;
                 }
             }
+        // All iterations store to the same place, the last one must win.
+        std::unordered_set<Value*> recurrences{ loop.inductionVar };
+        if(giv)
+            recurrences.insert(giv);
+        for(auto [base, ptr] : stores) {
+            std::unordered_set<Value*> visited;
+            if(loadStoreMap.at(base) == 2 && !isComputedFrom(ptr, body, recurrences, visited))
+                return false;
+        }
         std::vector<std::pair<Instruction*, Instruction*>> workList;
         for(auto [k, v] : loadStoreMap) {
             if(v == 3) {
-- 
2.43.0


From cac6fcc79498984568b5f59068a7ca220b2cb6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:45 +0000
Subject: [PATCH 13/20] fix: a parallelized bottom-tested loop whose bound is
 not above its initial value was skipped

---
 cmmc/Transforms/Loop/LoopParallel.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cmmc/Transforms/Loop/LoopParallel.cpp b/cmmc/Transforms/Loop/LoopParallel.cpp
index 9e85263..6d4ddee 100644
--- a/cmmc/Transforms/Loop/LoopParallel.cpp
+++ b/cmmc/Transforms/Loop/LoopParallel.cpp
@@ -151,6 +151,8 @@ class LoopParallel final : public TransformPass<Function> {
             auto initialRange = rangeInfo.query(loop.initial, dom, nullptr, 5);
             const auto isAligned = (initialRange.knownZeros() & 3) == 3;
             auto boundRange = rangeInfo.query(loop.bound, dom, nullptr, 5);
+            // The loop is bottom-tested: without a guard it may run once although the bound is not above the initial value.
+            const auto mayBeEmpty = boundRange.minSignedValue() <= initialRange.maxSignedValue();
             const auto needSubLoop = (boundRange - initialRange).maxSignedValue() < 400;
 
             // std::cerr << "collect\n";
@@ -375,9 +377,14 @@ class LoopParallel final : public TransformPass<Function> {
                 builder.makeOp<StoreInst>(ptr, k);
             }
 
+            Value* bound = bodyInfo.bound;
+            if(mayBeEmpty)
+                bound = builder.makeOp<BinaryInst>(
+                    InstructionID::SMax, bound,
+                    builder.makeOp<BinaryInst>(InstructionID::Add, bodyInfo.indvar, ConstantInteger::get(i32, 1)));
             builder.makeOp<FunctionCallInst>(
                 parallelFor,
-                std::vector<Value*>{ bodyInfo.indvar, bodyInfo.bound,
+                std::vector<Value*>{ bodyInfo.indvar, bound,
                                      builder.makeOp<FunctionPtrInst>(bodyFunc, PointerType::get(IntegerType::get(8))) });
             if(giv && bodyInfo.recUsedByOuter) {
                 const auto val = builder.makeOp<LoadInst>(givPtr);
-- 
2.43.0


From 17973cc1faa89d2fdb171f8165094b10da3f4173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:46 +0000
Subject: [PATCH 14/20] fix: wrong values after parallelized loops for their
 counters and the accumulator before its last update

---
 cmmc/Transforms/Loop/LoopBodyExtract.cpp |  6 ++++++
 cmmc/Transforms/Loop/LoopParallel.cpp    | 16 ++++++++++++++++
 cmmc/Transforms/Util/BlockUtil.hpp       |  1 +
 3 files changed, 23 insertions(+)

diff --git a/cmmc/Transforms/Loop/LoopBodyExtract.cpp b/cmmc/Transforms/Loop/LoopBodyExtract.cpp
index e5506c9..e93484e 100644
--- a/cmmc/Transforms/Loop/LoopBodyExtract.cpp
+++ b/cmmc/Transforms/Loop/LoopBodyExtract.cpp
@@ -280,6 +280,11 @@ bool extractLoopBody(Function& func, const Loop& loop, const DominateAnalysisRes
                     return false;
                 }
             }
+        // Only the value after the last iteration is known outside the loop.
+        if(giv)
+            for(auto user : giv->as<PhiInst>()->users())
+                if(!body.count(user->getBlock()))
+                    return false;
         // All iterations store to the same place, the last one must win.
         std::unordered_set<Value*> recurrences{ loop.inductionVar };
         if(giv)
@@ -518,6 +523,7 @@ bool extractLoopBody(Function& func, const Loop& loop, const DominateAnalysisRes
     if(ret) {
         ret->loop = newLoop;
         ret->indvar = loop.inductionVar->as<PhiInst>();
+        ret->next = next;
         ret->bound = loop.bound;
         ret->rec = (giv ? giv->as<PhiInst>() : nullptr);
         ret->recUsedByOuter = givUsedByOuter;
diff --git a/cmmc/Transforms/Loop/LoopParallel.cpp b/cmmc/Transforms/Loop/LoopParallel.cpp
index 6d4ddee..8f496c1 100644
--- a/cmmc/Transforms/Loop/LoopParallel.cpp
+++ b/cmmc/Transforms/Loop/LoopParallel.cpp
@@ -390,6 +390,22 @@ class LoopParallel final : public TransformPass<Function> {
                 const auto val = builder.makeOp<LoadInst>(givPtr);
                 bodyInfo.recNext->replaceWith(val);
             }
+            // final values of the induction variable
+            auto replaceOuterUse = [&](Instruction* val, intmax_t offset) {
+                Value* rep = nullptr;
+                for(auto it = val->users().begin(); it != val->users().end();) {
+                    const auto nextIt = std::next(it);
+                    if(it.ref()->user->getBlock() != bodyInfo.loop) {
+                        if(!rep)
+                            rep = offset ? builder.makeOp<BinaryInst>(InstructionID::Add, bound, ConstantInteger::get(i32, offset)) :
+                                           bound;
+                        it.ref()->resetValue(rep);
+                    }
+                    it = nextIt;
+                }
+            };
+            replaceOuterUse(bodyInfo.indvar, -1);
+            replaceOuterUse(bodyInfo.next, 0);
             bodyInfo.loop->instructions().erase(bodyInfo.recNext->asIterator(), bodyInfo.loop->instructions().end());
             builder.setCurrentBlock(bodyInfo.loop);
             builder.makeOp<BranchInst>(bodyInfo.exit);
diff --git a/cmmc/Transforms/Util/BlockUtil.hpp b/cmmc/Transforms/Util/BlockUtil.hpp
index 1e6d275..b7ac93f 100644
--- a/cmmc/Transforms/Util/BlockUtil.hpp
+++ b/cmmc/Transforms/Util/BlockUtil.hpp
@@ -48,6 +48,7 @@ bool collectLoopBody(Block* header, Block* latch, const DominateAnalysisResult&
 struct LoopBodyInfo final {
     Block* loop;
     PhiInst* indvar;
+    Instruction* next;
     Value* bound;
     PhiInst* rec;
     bool recUsedByOuter;
-- 
2.43.0


From f45a213f3337916d10f080b3bb29ffd83f1131d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:29 +0000
Subject: [PATCH 15/20] fix: ARM: minimum/maximum with a constant that only
 fits inverted could not be legalized

---
 cmmc/Target/ARM/ARMISelInfo.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/cmmc/Target/ARM/ARMISelInfo.cpp b/cmmc/Target/ARM/ARMISelInfo.cpp
index b1b8235..b48d12c 100644
--- a/cmmc/Target/ARM/ARMISelInfo.cpp
+++ b/cmmc/Target/ARM/ARMISelInfo.cpp
@@ -821,7 +821,7 @@ static bool legalizeInst(MIRInst& inst, ISelContext& ctx) {
             imm2reg(lhs);
             MIROperand rhsImmInverted;
             if(rhs.isImm() && !isOperandOp2Constant(rhs) && !selectInvertedOp2Constant(rhs, rhsImmInverted)) {
-                imm2reg(lhs);
+                imm2reg(rhs);
             }
             break;
         }
@@ -994,6 +994,22 @@ void ARMISelInfo::preRALegalizeInst(const InstLegalizeContext& ctx) const {
                 MIRInst{ MOV_Cond }.setOperand<0>(cf).setOperand<1>(dst).setOperand<2>(op2).setOperand<3>(cc).setOperand<4>(dst);
             break;
         }
+        case PseudoSMax_Inverted:
+        case PseudoSMin_Inverted: {
+            auto dst = inst.getOperand(0);
+            auto lhs = inst.getOperand(1);
+            auto inverted = inst.getOperand(2);
+            auto cc = inst.getOperand(3);
+
+            ctx.instructions.insert(ctx.iter, MIRInst{ MoveGPR }.setOperand<0>(dst).setOperand<1>(lhs));
+            // flags of lhs + ~rhs = lhs - rhs - 1
+            auto cf = MIROperand::asImm(inst.opcode() == PseudoSMin_Inverted ? CondField::GE : CondField::LT,
+                                        OperandType::CondField);
+            *ctx.iter =
+                MIRInst{ MVN_Cond }.setOperand<0>(cf).setOperand<1>(dst).setOperand<2>(inverted).setOperand<3>(cc).setOperand<4>(
+                    dst);
+            break;
+        }
         case PseudoFMA: {
             auto dst = inst.getOperand(0);
             auto x = inst.getOperand(1);
-- 
2.43.0


From 23b2872431c58864d1041ceaf42955d3b8d490e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:29 +0000
Subject: [PATCH 16/20] fix: wrong value after a dynamically unrolled loop for
 a phi of its last iteration

---
 cmmc/Transforms/Loop/DynamicLoopUnroll.cpp | 28 ++++++++++------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/cmmc/Transforms/Loop/DynamicLoopUnroll.cpp b/cmmc/Transforms/Loop/DynamicLoopUnroll.cpp
index 872cf74..4bc9836 100644
--- a/cmmc/Transforms/Loop/DynamicLoopUnroll.cpp
+++ b/cmmc/Transforms/Loop/DynamicLoopUnroll.cpp
@@ -251,7 +251,6 @@ public:
             // build scalar final
             {
                 IRBuilder builder{ target, scalarFinal };
-                auto& replaceHead = replaceMap.at(head);
                 auto& replacePrev = replaceMap.at(prev);
                 for(auto& inst : loop.latch->instructions()) {
                     bool usedByOuter = false;
@@ -266,23 +265,20 @@ public:
                         continue;
 
                     const auto phi = builder.createPhi(inst.getType());
-                    if(inst.getInstID() == InstructionID::Phi)
-                        phi->addIncoming(scalarHead, replaceHead.at(&inst));
-                    else {
-                        const auto val = replacePrev.at(&inst);
-                        const auto refPhi = head->instructions().front()->as<PhiInst>();
-                        const auto undef = make<UndefinedValue>(val->getType());
-                        const auto headPhi = make<PhiInst>(val->getType());
-                        headPhi->insertBefore(head, head->instructions().begin());
-                        for(auto& [pred, v] : refPhi->incomings()) {
-                            if(pred == prev) {
-                                headPhi->addIncoming(prev, val);
-                            } else {
-                                headPhi->addIncoming(pred, undef);
-                            }
+                    // value in the last iteration of the super block
+                    const auto val = replacePrev.at(&inst);
+                    const auto refPhi = head->instructions().front()->as<PhiInst>();
+                    const auto undef = make<UndefinedValue>(val->getType());
+                    const auto headPhi = make<PhiInst>(val->getType());
+                    headPhi->insertBefore(head, head->instructions().begin());
+                    for(auto& [pred, v] : refPhi->incomings()) {
+                        if(pred == prev) {
+                            headPhi->addIncoming(prev, val);
+                        } else {
+                            headPhi->addIncoming(pred, undef);
                         }
-                        phi->addIncoming(scalarHead, headPhi);
                     }
+                    phi->addIncoming(scalarHead, headPhi);
                     phi->addIncoming(loop.latch, &inst);
 
                     for(auto it = inst.users().begin(); it != inst.users().end();) {
-- 
2.43.0


From 3af255b10260b2844076cddf1ff4057c5f6832d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:28 +0000
Subject: [PATCH 17/20] fix: large local arrays of the same name became
 duplicate symbols

---
 cmmc/Transforms/Misc/LargeLocal2Global.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cmmc/Transforms/Misc/LargeLocal2Global.cpp b/cmmc/Transforms/Misc/LargeLocal2Global.cpp
index 77d76ab..e9e934a 100644
--- a/cmmc/Transforms/Misc/LargeLocal2Global.cpp
+++ b/cmmc/Transforms/Misc/LargeLocal2Global.cpp
@@ -30,6 +30,7 @@
 #include <iostream>
 #include <memory>
 #include <queue>
+#include <string>
 #include <unordered_map>
 #include <unordered_set>
 #include <vector>
@@ -73,9 +74,17 @@ public:
         if(allocas.empty())
             return false;
 
+        std::unordered_set<std::string> symbols;
+        for(auto global : mod.globals())
+            symbols.emplace(global->getSymbol().prefix());
+
         for(auto alloca : allocas) {
-            // TODO: assign a unique name?
-            auto global = make<GlobalVariable>(alloca->getLabel(), alloca->getType()->as<PointerType>()->getPointee(),
+            const std::string base{ alloca->getLabel().prefix() };
+            auto symbol = base;
+            for(uint32_t idx = 1; !symbols.insert(symbol).second; ++idx)
+                symbol = base + "." + std::to_string(idx);
+            auto global = make<GlobalVariable>(symbol == base ? alloca->getLabel() : String::get(symbol),
+                                               alloca->getType()->as<PointerType>()->getPointee(),
                                                alloca->as<StackAllocInst>()->getAlignment());
             global->setLinkage(Linkage::Internal);
             mod.globals().push_back(global);
-- 
2.43.0


From c710f9c3367688d8d99c7c4f0e29482f1c6d4ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:05 +0000
Subject: [PATCH 18/20] fix: compile-time evaluation limited by wall-clock time
 made the output depend on the machine

---
 cmmc/ExecutionEngine/Interpreter.cpp       | 10 ++++++----
 cmmc/ExecutionEngine/Interpreter.hpp       |  5 ++++-
 cmmc/Transforms/Misc/ConstexprFuncEval.cpp |  4 +++-
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/cmmc/ExecutionEngine/Interpreter.cpp b/cmmc/ExecutionEngine/Interpreter.cpp
index d69a2a1..28309b2 100644
--- a/cmmc/ExecutionEngine/Interpreter.cpp
+++ b/cmmc/ExecutionEngine/Interpreter.cpp
@@ -441,10 +441,9 @@ public:
     }
 };
 
-Interpreter::Interpreter(size_t timeBudget, size_t memBudget, size_t maxRecursiveDepth, bool dumpStatistics)
-    : mTimeBudget{ timeBudget }, mMemBudget{ memBudget }, mMaxRecursiveDepth{ maxRecursiveDepth }, mDumpStatistics{
-          dumpStatistics
-      } {}
+Interpreter::Interpreter(size_t timeBudget, size_t memBudget, size_t maxRecursiveDepth, bool dumpStatistics, size_t stepBudget)
+    : mTimeBudget{ timeBudget }, mMemBudget{ memBudget }, mMaxRecursiveDepth{ maxRecursiveDepth },
+      mDumpStatistics{ dumpStatistics }, mStepBudget{ stepBudget } {}
 
 std::variant<ConstantValue*, SimulationFailReason> Interpreter::execute(Module& module, Function& func,
                                                                         const std::vector<ConstantValue*>& arguments,
@@ -556,6 +555,7 @@ std::variant<ConstantValue*, SimulationFailReason> Interpreter::execute(Module&
     size_t callCount = 0;
     size_t loadCount = 0;
     size_t storeCount = 0;
+    size_t stepCount = 0;
 
     auto reportStatistics = [&] {
         auto& out = std::cerr;
@@ -579,6 +579,8 @@ std::variant<ConstantValue*, SimulationFailReason> Interpreter::execute(Module&
             return SimulationFailReason::ExceedMemoryLimit;
         if(memCtx.hasException())
             return SimulationFailReason::MemoryError;
+        if(stepCount++ >= mStepBudget)
+            return SimulationFailReason::ExceedTimeLimit;
 
         auto& currentExecCtx = execCtx.back();
         auto iter = currentExecCtx.execIter;
diff --git a/cmmc/ExecutionEngine/Interpreter.hpp b/cmmc/ExecutionEngine/Interpreter.hpp
index 0ce62d5..971c3d6 100644
--- a/cmmc/ExecutionEngine/Interpreter.hpp
+++ b/cmmc/ExecutionEngine/Interpreter.hpp
@@ -16,6 +16,7 @@
 #include <cmmc/IR/ConstantValue.hpp>
 #include <cmmc/IR/Function.hpp>
 #include <cstdio>
+#include <limits>
 #include <memory>
 #include <variant>
 
@@ -95,9 +96,11 @@ class Interpreter final {
         mMemBudget,          // in bytes
         mMaxRecursiveDepth;  //
     bool mDumpStatistics;
+    size_t mStepBudget;  // in instructions
 
 public:
-    Interpreter(size_t timeBudget, size_t memBudget, size_t maxRecursiveDepth, bool dumpStatistics);
+    Interpreter(size_t timeBudget, size_t memBudget, size_t maxRecursiveDepth, bool dumpStatistics,
+                size_t stepBudget = std::numeric_limits<size_t>::max());
     std::variant<ConstantValue*, SimulationFailReason>
     execute(Module& module, Function& func, const std::vector<ConstantValue*>& arguments, SimulationIOContext* ioCtx) const;
 };
diff --git a/cmmc/Transforms/Misc/ConstexprFuncEval.cpp b/cmmc/Transforms/Misc/ConstexprFuncEval.cpp
index 728b4ea..aaf3c5c 100644
--- a/cmmc/Transforms/Misc/ConstexprFuncEval.cpp
+++ b/cmmc/Transforms/Misc/ConstexprFuncEval.cpp
@@ -24,6 +24,7 @@
 #include <cmmc/Support/StaticReflection.hpp>
 #include <cmmc/Transforms/TransformPass.hpp>
 #include <iostream>
+#include <limits>
 #include <variant>
 
 CMMC_NAMESPACE_BEGIN
@@ -48,7 +49,8 @@ class ConstexprFuncEval final : public TransformPass<Function> {
     }
 
     static ConstantValue* eval(Module& module, Function& func, const std::vector<ConstantValue*>& args) {
-        Interpreter interpreter{ 100'000'000, 1048576, 256, false };
+        // The number of steps is limited instead of the time, or the output would depend on the speed of the machine.
+        Interpreter interpreter{ std::numeric_limits<int64_t>::max(), 1048576, 256, false, 500'000 };
         const auto res = interpreter.execute(module, func, args, nullptr);
         if(std::holds_alternative<ConstantValue*>(res))
             return std::get<ConstantValue*>(res);
-- 
2.43.0


From 7f482a944efea43772f1cb2676f10accd58e7a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:39 +0000
Subject: [PATCH 19/20] fix: keep the rematerialized constant by value when its
 definition is erased

---
 cmmc/CodeGen/GraphColoringRegisterAllocator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmmc/CodeGen/GraphColoringRegisterAllocator.cpp b/cmmc/CodeGen/GraphColoringRegisterAllocator.cpp
index 8ef68e1..4dd2493 100644
--- a/cmmc/CodeGen/GraphColoringRegisterAllocator.cpp
+++ b/cmmc/CodeGen/GraphColoringRegisterAllocator.cpp
@@ -623,11 +623,11 @@ static void graphColoringAllocateImpl(MIRFunction& mfunc, CodeGenContext& ctx, I
         bool alreadyInStack = inStackArguments.count(u);
         bool rematerializeConstant = constants.count(u);
         MIROperand stackStorage;
-        MIRInst* copyInst = nullptr;
+        std::optional<MIRInst> copyInst;  // by value: the definition may be erased before its last use is rewritten
         if(alreadyInStack) {
             stackStorage = inStackArguments.at(u);
         } else if(rematerializeConstant) {
-            copyInst = constants.at(u);
+            copyInst = *constants.at(u);
         } else {
             stackStorage = mfunc.addStackObject(ctx, size, size, 0, StackObjectUsage::RegSpill);
         }
-- 
2.43.0


From 545653ddd06e2bd3725ab214efcd75de78236e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:12 +0000
Subject: [PATCH 20/20] fix: give every block an estimate when the block
 frequency system is singular

---
 cmmc/Analysis/BlockTripCountEstimation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmc/Analysis/BlockTripCountEstimation.cpp b/cmmc/Analysis/BlockTripCountEstimation.cpp
index 99253b7..d923926 100644
--- a/cmmc/Analysis/BlockTripCountEstimation.cpp
+++ b/cmmc/Analysis/BlockTripCountEstimation.cpp
@@ -55,7 +55,7 @@ static std::vector<double> solve(size_t n, std::vector<double>& a) {
             }
         }
         if(maxv == eps)
-            return { {} };
+            return std::vector<double>(n, 1.0);  // singular: no estimate, all blocks alike
 
         if(i != x) {
             std::swap(p[i], p[x]);
-- 
2.43.0

