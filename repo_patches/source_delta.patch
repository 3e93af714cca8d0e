From 327ea467849c082e4cf4e0dd259eb1b47335ab46 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 01/29] fix: Barrier::wait reads the pass number under the lock

A caller that read barrier_count before taking the mutex could be overtaken
by a whole pass of other callers (a barrier may be shared by more threads than
it waits for). It then returned without waiting, and left its arrival counted
so that the next pass was released one caller early.
---
 src/Barrier.cxx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Barrier.cxx b/src/Barrier.cxx
index ca3d689..286ca3f 100644
--- a/src/Barrier.cxx
+++ b/src/Barrier.cxx
@@ -54,11 +54,14 @@ namespace SoDa {
       return wait(std::chrono::seconds(3600 * 24 * 1000));
     }
     
-    // bump the waiting count
-    auto old_barrier_count = barrier_count; 
     {
       std::unique_lock<std::mutex> lock(mtx);
-      
+
+      // which pass through the barrier are we waiting for? This must be
+      // read under the lock, or we may see a pass that has already completed.
+      auto old_barrier_count = barrier_count; 
+
+      // bump the waiting count      
       waiting++; 
       if(waiting == num_waiters) {
 	// reset -- nobody will be waiting anymore
-- 
2.43.0


From faba51389bef6df3e89fcc9172768076074eaeee Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 02/29] fix: a timed out barrier reports Corrupt to every other
 waiter

After one waiter timed out, the waiters it woke returned normally from wait,
and callers that arrived later were counted with the waiters that had left, so
they could be released (or block) instead of getting the documented
Barrier::Corrupt.
---
 src/Barrier.cxx | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/Barrier.cxx b/src/Barrier.cxx
index 286ca3f..630b794 100644
--- a/src/Barrier.cxx
+++ b/src/Barrier.cxx
@@ -57,6 +57,11 @@ namespace SoDa {
     {
       std::unique_lock<std::mutex> lock(mtx);
 
+      // a broken barrier never lets anybody through.
+      if(corrupted) {
+	throw Barrier::Corrupt(*this);
+      }
+
       // which pass through the barrier are we waiting for? This must be
       // read under the lock, or we may see a pass that has already completed.
       auto old_barrier_count = barrier_count; 
@@ -77,26 +82,23 @@ namespace SoDa {
 	bool is_ok = cv.wait_for(lock, 
 				 timeout,
 				 [old_barrier_count, this]() {
-				   return old_barrier_count != barrier_count; 
+				   return (old_barrier_count != barrier_count) || corrupted; 
 				 });
 	
-	// if the barrier hasn't advanced, then we timed out.
+	// if the barrier hasn't advanced, then somebody timed out.
 	if (!is_ok) {
 	  // that's really bad, as we've got a broken barrier.
 	  // If we return it will be truly broken, and everyone will
 	  // hang. Though it is likely that everyone is hung already.
-	  bool old_corrupt = corrupted; 
-	  if(old_corrupt) {
-	    throw Barrier::Corrupt(*this);
-	  }
-	  else {
-	    // we're the first one to timout. 
-	    corrupted = true; 
-	    // set the barrier count to infinity, and wake everyone up
-	    barrier_count = 0xffffffff;
-	    cv.notify_all();
-	    throw Barrier::Timeout(*this, timeout);
-	  }
+	  // we're the first one to timout. 
+	  corrupted = true; 
+	  // wake everyone up
+	  cv.notify_all();
+	  throw Barrier::Timeout(*this, timeout);
+	}
+	else if(old_barrier_count == barrier_count) {
+	  // the barrier didn't advance: another waiter timed out. 
+	  throw Barrier::Corrupt(*this);
 	}
       }
     }
-- 
2.43.0


From 586f61757bc7ba0b1e271fd5a26d34b2ec33c148 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 03/29] fix: dropping a subscription after an explicit
 unsubscribe is harmless

MailBox::unsubscribe is public, but the Subscription destructor called it
again, and the MissingSubscriber exception escaped from the destructor and
terminated the program.
---
 include/MailBox.hxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/MailBox.hxx b/include/MailBox.hxx
index 81ec389..6474975 100644
--- a/include/MailBox.hxx
+++ b/include/MailBox.hxx
@@ -276,7 +276,12 @@ namespace SoDa {
       }
 
       ~SubscriptionCl() {
-	this_mbox->unsubscribe(subscriber_index);
+	try {
+	  this_mbox->unsubscribe(subscriber_index);
+	}
+	catch(MissingSubscriber & e) {
+	  // already unsubscribed by an explicit call to unsubscribe.
+	}
       }
 
       int getIndex(MailBox<T> * mbox) const {
-- 
2.43.0


From ff653a206c07035c8ad7110eec4296ab5f351f41 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 04/29] fix: Format::addI puts no separator between the sign
 and the digits

-123456 with ',' came out as "-,123,456".
---
 src/Format.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Format.cxx b/src/Format.cxx
index 81c5fe9..61f84b5 100644
--- a/src/Format.cxx
+++ b/src/Format.cxx
@@ -162,7 +162,7 @@ namespace SoDa {
       std::string newstr;
       int i = 0; 
       for(auto c : vstr) {
-	if(i == 3) {
+	if((i == 3) && (c != '-')) {
 	  newstr = sep + newstr;
 	  i = 0; 
 	}
-- 
2.43.0


From b67ad31f92dc0c0edffb665cdecd5275d85b50b6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 05/29] fix: Format::addU puts decimal separators between
 digits only

The decimal value was padded before the separators were inserted, so 100 in a
field of 8 with ',' came out as "  ,   ,100" and wider than asked for.
---
 src/Format.cxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Format.cxx b/src/Format.cxx
index 61f84b5..919f14b 100644
--- a/src/Format.cxx
+++ b/src/Format.cxx
@@ -210,7 +210,8 @@ namespace SoDa {
     case 'd':
     case 'D':
     default:
-      if(w != 0) pre_ss << std::setw(w);
+      // with separators, the field is filled out after they are inserted.
+      if((w != 0) && (sep == '\000')) pre_ss << std::setw(w);
       pre_ss << std::dec << v; 
       valstr = pre_ss.str();
       prefix = "";		
@@ -246,6 +247,9 @@ namespace SoDa {
 	cc++;
       }
       result = prefix + newstr; 
+      if(not_hex && not_oct && (result.size() < w)) {
+	result.insert(0, w - result.size(), ' ');
+      }
     }
 
     
-- 
2.43.0


From 00d225ad4147b0bfbca1278e8ec96e7d97ae6b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:34 +0000
Subject: [PATCH 06/29] fix: 'e' notation keeps the integer part in 1 to 999
 for every finite value

---
 src/Format.cxx | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/src/Format.cxx b/src/Format.cxx
index 919f14b..d4b0853 100644
--- a/src/Format.cxx
+++ b/src/Format.cxx
@@ -286,15 +286,15 @@ namespace SoDa {
   int log1k(double v, double & v_norm, int sig_digs) {
     int ret = 0;
     v_norm = v; 
-    // round it first
-    double remul = 1.0; 
+    // normalize to the range 1 to 10, and keep track of the exponent. 
+    int dec_exp = 0; 
     while(v_norm >= 10.0) {
       v_norm = v_norm / 10.0;
-      remul = remul * 10.0;
+      dec_exp++; 
     }
     while(v_norm < 1.0) {
       v_norm = v_norm * 10.0;
-      remul = remul / 10.0;
+      dec_exp--; 
     }
     // now create the round incr
     double ri = 5;    
@@ -305,29 +305,24 @@ namespace SoDa {
     // now do the round-up add
     v_norm += ri;
     //std::cerr << "Now v_norm = " << v_norm << "\n";
-
-    // now restore v_norm to the original magnitude more or less
-    v_norm = v_norm * remul;
-
-    // ok, now take the log1k
-    if(v_norm < 1.0) {
-      while(v_norm < 1.0) {
-	ret -= 3; 
-	v_norm = v_norm * 1000.0; 
-      }
+    // which may have carried into a new digit. 
+    if(v_norm >= 10.0) {
+      v_norm = v_norm / 10.0;
+      dec_exp++; 
     }
-    else {
-      while(v_norm > 1000.0) {
-	ret += 3; 
-	v_norm = v_norm / 1000.0; 
-      }
+
+    // ok, now the exponent is the multiple of three at or below dec_exp.
+    ret = dec_exp - (((dec_exp % 3) + 3) % 3);
+    // scale v_norm to the range 1 to 1000.
+    for(int i = ret; i < dec_exp; i++) {
+      v_norm = v_norm * 10.0; 
     }
     return ret; 
   }
 
   int getIntPartWidth(double v) {
     int ret = 0; 
-    while(v > 1.0) {
+    while(v >= 1.0) {
       v = v / 10.0; 
       ret++; 
     }
-- 
2.43.0


From 67cfbcc9066720b30e5a9eaff29927f0715093b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:34 +0000
Subject: [PATCH 07/29] fix: 'e' notation does not overflow with ten or more
 fraction digits

---
 src/Format.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Format.cxx b/src/Format.cxx
index d4b0853..a2a3ca4 100644
--- a/src/Format.cxx
+++ b/src/Format.cxx
@@ -330,7 +330,7 @@ namespace SoDa {
   }
   
   void fractionate(double v, unsigned int significant_digits, 
-		   int & int_part, int & frac_part,
+		   int & int_part, long & frac_part,
 		   int & int_wid, int & frac_wid) {
     // v is in the range 1 to 1000 - epsilon. 
     // How many digits did it take up?
@@ -452,7 +452,8 @@ namespace SoDa {
 	int exp_val = log1k(av, av_norm, significant_digits);
 	//std::cerr << "av_norm " << av_norm << " exp_val " << exp_val << "\n";
 	// now do the fraction and rounding
-	int frac_part, int_part, int_wid, frac_wid;
+	long frac_part; 
+	int int_part, int_wid, frac_wid;
 	fractionate(av_norm, significant_digits,
 		    int_part, frac_part, 
 		    int_wid, frac_wid);
-- 
2.43.0


From dff3a353bed09eadda42f1d8b583f17594c46239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:34 +0000
Subject: [PATCH 08/29] fix: Format::addF keeps the sign of negative infinity

---
 src/Format.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Format.cxx b/src/Format.cxx
index a2a3ca4..6cba958 100644
--- a/src/Format.cxx
+++ b/src/Format.cxx
@@ -404,7 +404,7 @@ namespace SoDa {
       return *this;
     }
     else if (std::isinf(v)) {
-      insertField(pad("inf", width));
+      insertField(pad((v < 0) ? "-inf" : "inf", width));
       return *this;
     }
     
-- 
2.43.0


From 1ab52a2ce7b1a6e18894a69765d908508ffb8bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:34 +0000
Subject: [PATCH 09/29] fix: Format::addF uses the radix separator in every
 notation

---
 src/Format.cxx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Format.cxx b/src/Format.cxx
index 6cba958..463f40d 100644
--- a/src/Format.cxx
+++ b/src/Format.cxx
@@ -467,7 +467,7 @@ namespace SoDa {
 	// if we have no significant fraction digits,
 	// leave them off.
 	if(frac_wid > 0) {
-	  ss << '.' << std::setw(frac_wid) << std::right 
+	  ss << separator << std::setw(frac_wid) << std::right 
 	     << std::setfill('0') << frac_part;
 	}
 	// now the exponent
@@ -489,7 +489,12 @@ namespace SoDa {
       }
     }
 
-    insertField(ss.str());
+    std::string field = ss.str();
+    if(fmt != 'e') {
+      // the stream conversions always use '.' for the radix point. 
+      std::replace(field.begin(), field.end(), '.', separator);
+    }
+    insertField(field);
     return *this;     
   }
 
-- 
2.43.0


From e8b5a0441235a655cdb1f10a8c2ab8bc2c9bcee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:34 +0000
Subject: [PATCH 10/29] fix: zero in 'e' notation is padded out to the field
 width

---
 src/Format.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Format.cxx b/src/Format.cxx
index 463f40d..c0d1dc7 100644
--- a/src/Format.cxx
+++ b/src/Format.cxx
@@ -438,6 +438,7 @@ namespace SoDa {
 	//std::cerr << "Got zero " << v << "\n";
 	ss << "0" << separator << std::left 
 	   << std::setw(significant_digits - 1) << std::setfill('0') << 0 << "e0";
+	ss.str(pad(ss.str(), width));
       }
       else {
 	// get the abs val
-- 
2.43.0


From 761122cdbf95e18f66463d12d9937faa5b55aab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:34 +0000
Subject: [PATCH 11/29] fix: Format_ext offers the same addI and addU as Format

---
 include/Format.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Format.hxx b/include/Format.hxx
index d20e841..e2bd254 100644
--- a/include/Format.hxx
+++ b/include/Format.hxx
@@ -582,12 +582,12 @@ namespace SoDa {
      * a reference to the derived class.   So do all the other 
      * shadow methods here. 
      */
-    T & addI(int v, unsigned int width = 0, char sep = '\000') { 
-      Format::addI(v, width, sep);
+    T & addI(int v, unsigned int width = 0, char sep = '\000', char fill = '\000') { 
+      Format::addI(v, width, sep, fill);
       return *saved_ptr; 
     }
 
-    T & addU(unsigned int v, char fmt = 'd', unsigned int width = 0,
+    T & addU(unsigned long v, char fmt = 'd', unsigned int width = 0,
 	     char sep = '\000',
 	     unsigned int group_count = 4) {
       Format::addU(v, fmt, width, sep, group_count);
-- 
2.43.0


From 33c7db4bece0dbffd2822b9ced56ba5176e31d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 12/29] fix: getPosArg returns an empty string for the first
 index past the end

---
 src/Options.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Options.cxx b/src/Options.cxx
index 59fa849..ad4549e 100644
--- a/src/Options.cxx
+++ b/src/Options.cxx
@@ -78,7 +78,7 @@ namespace SoDa {
   }
 
   std::string Options::getPosArg(int idx) {
-    if(idx > pos_arg_vec.size()) return std::string("");
+    if(idx >= pos_arg_vec.size()) return std::string("");
     else return pos_arg_vec[idx]; 
   }
 
-- 
2.43.0


From bfd9c23301bbdf469476670409175476778f2b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 13/29] fix: vector options of signed types accept negative
 values

---
 include/Options.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Options.hxx b/include/Options.hxx
index 0f35472..993d612 100644
--- a/include/Options.hxx
+++ b/include/Options.hxx
@@ -586,7 +586,7 @@ posargs =
 	     const std::string & doc_str, 
 	     const std::function<bool(T)> & test_func = allGood, 
 	     const std::string & err_msg = std::string("")) :
-	OptBase(doc_str, err_msg, false), 
+	OptBase(doc_str, err_msg, std::is_signed<T>::value), 
 	argvec_p(v_vec), 
 	test_func(test_func)
       {
-- 
2.43.0


From c385486d33507d1118cedc4964377f18575b4768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 14/29] fix: Options::parse does not inherit a pending signed
 value from an earlier call

---
 src/Options.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Options.cxx b/src/Options.cxx
index ad4549e..36d7fca 100644
--- a/src/Options.cxx
+++ b/src/Options.cxx
@@ -175,6 +175,8 @@ namespace SoDa {
 
   bool Options::parse(std::list<std::string> tokens) {
     OptBase_p arg_p = nullptr;
+    // forget anything an earlier call left behind
+    waiting_for_signed = false; 
     try {
     while(!tokens.empty()) {
       std::string tkn = tokens.front();
-- 
2.43.0


From 9a032f19e32f1f088e421918ef35b62a6fbc8c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 15/29] fix: an option that ends the command line is present

---
 src/Options.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Options.cxx b/src/Options.cxx
index 36d7fca..436d19e 100644
--- a/src/Options.cxx
+++ b/src/Options.cxx
@@ -243,6 +243,10 @@ namespace SoDa {
 	}
       }
     }
+    // the last option on the line may have been left without a value. 
+    if(arg_p != nullptr) {
+      arg_p->setPresent(); 
+    }
     }
     catch (BadOptValueException & exc) {
       std::cerr << exc.what() << "\n";
-- 
2.43.0


From 1c46c04d40d674190acf5f455bac74c2155aad06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 16/29] fix: an unacceptable option value is not stored in the
 target

---
 include/Options.hxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/Options.hxx b/include/Options.hxx
index 993d612..62987cf 100644
--- a/include/Options.hxx
+++ b/include/Options.hxx
@@ -566,10 +566,12 @@ posargs =
       }
       
       bool setVal(const std::string & vstr) {
-	setValBase(*val_p, vstr);
-	if (!test_func(*val_p)) {
+	T v(*val_p);
+	setValBase(v, vstr);
+	if (!test_func(v)) {
 	  throw BadOptValueException(long_name, vstr, err_msg); 	  
 	}
+	*val_p = v; 
 	return setPresent(); 
       }
 
-- 
2.43.0


From 3df8485c0a2c4130505019503fc96b10a311bade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 17/29] fix: key=value lists accept empty items, any value, and
 bare flags

---
 src/Options.cxx | 58 +++++++++++++++++++++++++++++++++----------------
 1 file changed, 39 insertions(+), 19 deletions(-)

diff --git a/src/Options.cxx b/src/Options.cxx
index 436d19e..e9a1239 100644
--- a/src/Options.cxx
+++ b/src/Options.cxx
@@ -314,27 +314,47 @@ namespace SoDa {
   
   bool Options::parseKeyValue(const std::list<std::string> & l_kvp) {
     // for each item in the kvp list,
-    // trim the item,
-    // add the pair to a token list
-    std::list<std::string> tknlist; 
-    
-    for(auto kv_a : l_kvp) {
-      auto kv = SoDa::squashSpaces(kv_a);
+    // trim the item, split it at the first =, and set the option. 
+    try {
+      for(auto kv_a : l_kvp) {
+	auto kv = SoDa::squashSpaces(kv_a);
+	// nothing there, as in "a=b,,c=d"
+	if(kv.empty()) continue; 
       
-      // now we've got a key=value pair.  Split that at the =
-      auto kvp = SoDa::split(kv, std::string("="));
-      auto key = kvp.front();
-      auto value = kvp.back();
-
-      // ok. now we're going to re-use some stuff from the "parse a
-      // command line" functions
-      key = "--" +  key;
-
-      tknlist.push_back(key);
-      tknlist.push_back(value);
-      // find the option name
+	// now we've got a key=value pair.  Split that at the first =
+	// The value may contain anything, including another =
+	auto eq_pos = kv.find('=');
+	auto key = kv.substr(0, eq_pos);
+
+	if(key == "help") {
+	  printHelp(std::cerr);
+	  return false; 
+	}
+	
+	auto arg_p = findOpt(key);
+	if(arg_p == nullptr) {
+	  throw BadOptionNameException(key); 
+	}
+
+	if(arg_p->isPresentOpt() || (eq_pos == std::string::npos)) {
+	  // no value is needed, or none was supplied
+	  arg_p->setPresent();
+	}
+	else {
+	  arg_p->setVal(kv.substr(eq_pos + 1));
+	}
+      }
+    }
+    catch (BadOptValueException & exc) {
+      std::cerr << exc.what() << "\n";
+      return false; 
+    }
+    catch (BadOptionNameException & exc) {
+      std::cerr << exc.what() << "\n";
+      printHelp(std::cerr);
+      return false; 
     }
 
-    return parse(tknlist);    
+    return true; 
   }
 }
-- 
2.43.0


From f34b91a8715c6eba3c0a0e4afedef1a4aa6b386b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 18/29] fix: squashSpaces handles empty and all-blank strings

---
 src/Split.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Split.cxx b/src/Split.cxx
index 3491f38..ad21f63 100644
--- a/src/Split.cxx
+++ b/src/Split.cxx
@@ -45,8 +45,8 @@ namespace SoDa {
     size_t pos = 0;
 
     // trim the string. 
-    while(ret.front() == ' ') ret.erase(0, 1);
-    while(ret.back() == ' ') ret.pop_back();
+    while(!ret.empty() && (ret.front() == ' ')) ret.erase(0, 1);
+    while(!ret.empty() && (ret.back() == ' ')) ret.pop_back();
     
     while((pos = ret.find(' ', pos)) != std::string::npos) {
       if((pos < ret.length() - 1) && (ret[pos+1] == ' ')) {
-- 
2.43.0


From 32e58fe2320e47bcecde15893e51d26c3217458c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 19/29] fix: PropNode::getProp descends to the named child

---
 src/PropertyTree.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PropertyTree.cxx b/src/PropertyTree.cxx
index 9494a63..cdc0ce6 100644
--- a/src/PropertyTree.cxx
+++ b/src/PropertyTree.cxx
@@ -73,8 +73,9 @@ namespace SoDa {
       return this; 
     }
     else if(dictionary.find(pathlist.front()) != dictionary.end()) {
+	PropNode * child = dictionary[pathlist.front()]; 
 	pathlist.pop_front();
-	return getPropRecursive(pathlist, orig_pathname, throw_exception);
+	return child->getPropRecursive(pathlist, orig_pathname, throw_exception);
     }
     else {
       if(throw_exception) {
-- 
2.43.0


From 9057e99232f2c92345d05ba0cc6ad461bca3c088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 20/29] fix: PropertyTree::get returns false for a missing path
 unless asked to throw

---
 include/PropertyTree.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/PropertyTree.hxx b/include/PropertyTree.hxx
index 36b7fb4..ce60afb 100644
--- a/include/PropertyTree.hxx
+++ b/include/PropertyTree.hxx
@@ -133,7 +133,8 @@ namespace SoDa {
       PropNode * pn = root->getProp(pathname, throw_exception); 
       
       if(pn == nullptr) {
-	throw PropNode::PropertyNotFound(pathname); 
+	// getProp has already thrown PropertyNotFound if that was wanted.
+	return false; 
       }
       
       return pn->get<T>(v, throw_exception);
-- 
2.43.0


From 90b017ed40cce30a46ee576fecf0600e0b2b7c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 21/29] fix: a string property is read as its whole value

---
 include/PropertyTree.hxx | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/PropertyTree.hxx b/include/PropertyTree.hxx
index ce60afb..bb3225c 100644
--- a/include/PropertyTree.hxx
+++ b/include/PropertyTree.hxx
@@ -264,6 +264,21 @@ namespace SoDa {
   protected:
     PropNode * root; 
   };
+
+  /**
+   * A string property is the whole value string, spaces and all. 
+   */
+  template<> inline bool 
+  PropertyTree::PropNode::get<std::string>(std::string & v, bool throw_exception) {
+    if(!is_terminal) {
+      if(throw_exception) {
+	throw BadPropertyType(getPathName(), typeid(v).name(), val_string);
+      }
+      return false; 
+    }
+    v = val_string;
+    return true; 
+  }
     
 }
 
-- 
2.43.0


From 7b0e2f8d0097752993ba058ae43fbd7b788a2eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 22/29] fix: BadPropertyType names the requested type

---
 src/PropertyTree.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PropertyTree.cxx b/src/PropertyTree.cxx
index cdc0ce6..5f378ab 100644
--- a/src/PropertyTree.cxx
+++ b/src/PropertyTree.cxx
@@ -154,7 +154,7 @@ namespace SoDa {
   PropertyTree::PropNode::BadPropertyType::BadPropertyType(const std::string & path_name, 
 							   const std::string & type_name, 
 							   const std::string & val_string) :
-    Exception(SoDa::Format("PropertyTree::PropNode::BadPropertyType at node name \"%0\" with value string \"%1\" which cannot be converted to type \"2\"")
+    Exception(SoDa::Format("PropertyTree::PropNode::BadPropertyType at node name \"%0\" with value string \"%1\" which cannot be converted to type \"%2\"")
 	      .addS(path_name)
 	      .addS(val_string)
 	      .addS(type_name)
-- 
2.43.0


From 0713e6afe93f5c950168ae7e147507d403d5ff45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 23/29] fix: getPathName returns the path that getProp accepts

---
 src/PropertyTree.cxx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/PropertyTree.cxx b/src/PropertyTree.cxx
index 5f378ab..0cda66d 100644
--- a/src/PropertyTree.cxx
+++ b/src/PropertyTree.cxx
@@ -40,7 +40,13 @@ namespace SoDa {
   std::string PropertyTree::PropNode::getPathName() {
     std::string ret;
     if(parent != nullptr) {
-      ret = parent->getPathName() + ":" + val_string;
+      ret = parent->getPathName();
+      for(auto & d : parent->dictionary) {
+	if(d.second == this) {
+	  if(!ret.empty()) ret = ret + ":";
+	  ret = ret + d.first; 
+	}
+      }
     }
     
     return ret; 
-- 
2.43.0


From 004d4d0cab17ddedba39f2fbe0f623a4e94ef375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 24/29] fix: PropertyTreeYAML does not iterate over a temporary
 node

---
 src/PropertyTreeYAML.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PropertyTreeYAML.cxx b/src/PropertyTreeYAML.cxx
index d73b2ac..a20707e 100644
--- a/src/PropertyTreeYAML.cxx
+++ b/src/PropertyTreeYAML.cxx
@@ -90,7 +90,8 @@ namespace SoDa {
 	// pass it along, as all prop tree nodes are lists or dictionaries
 	// or both
 	
-	for(auto n : it->second) {
+	YAML::Node seq(it->second); 
+	for(auto n : seq) {
 	  fillRecurse(n, prop);
 	}
       }
-- 
2.43.0


From ef4801cce78acadfd0646b08e99d82a6c06b0448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 25/29] fix: a YAML sequence is stored as a list under its own
 key

---
 src/PropertyTreeYAML.cxx | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/PropertyTreeYAML.cxx b/src/PropertyTreeYAML.cxx
index a20707e..29fdd7d 100644
--- a/src/PropertyTreeYAML.cxx
+++ b/src/PropertyTreeYAML.cxx
@@ -65,6 +65,20 @@ namespace SoDa {
       prop->prop_list.push_back(pnp); 
       return; 
     }
+    if(node.IsSequence()) {
+      for(auto n : node) {
+	if(n.IsMap() || n.IsSequence()) {
+	  // the item is a list or a dictionary of its own. 
+	  auto pnp = new PropertyTree::PropNode(prop, "", false);
+	  prop->prop_list.push_back(pnp);
+	  fillRecurse(n, pnp);
+	}
+	else {
+	  fillRecurse(n, prop);
+	}
+      }
+      return; 
+    }
     for(YAML::const_iterator it = node.begin(); 
 	it != node.end(); 
 	++it) {
@@ -86,14 +100,10 @@ namespace SoDa {
       }
       
       if(it->second.IsSequence()) {
-	// we aren't really going to do anything.  Just
-	// pass it along, as all prop tree nodes are lists or dictionaries
-	// or both
-	
-	YAML::Node seq(it->second); 
-	for(auto n : seq) {
-	  fillRecurse(n, prop);
-	}
+	// New node. It will hold the items of the sequence in its list. 
+	auto pnp = new PropertyTree::PropNode(prop, "", false);
+	prop->dictionary[it->first.as<std::string>()] = pnp;
+	fillRecurse(YAML::Node (it->second), pnp);
       }
     }
   }
-- 
2.43.0


From e538a07828720599490b935f2b0f5606ccc84ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 26/29] fix: reading a second file adds to the dictionaries
 that are already there

---
 src/PropertyTreeYAML.cxx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/PropertyTreeYAML.cxx b/src/PropertyTreeYAML.cxx
index 29fdd7d..219a7b6 100644
--- a/src/PropertyTreeYAML.cxx
+++ b/src/PropertyTreeYAML.cxx
@@ -86,8 +86,11 @@ namespace SoDa {
       if(it->second.IsMap()) {
 	// New node. It will have children
 	// that are either maps or lists or terminals.
-	auto pnp = new PropertyTree::PropNode(prop, "", false);
-	prop->dictionary[it->first.as<std::string>()] = pnp;
+	// If an earlier file left a dictionary here, add to it. 
+	auto & pnp = prop->dictionary[it->first.as<std::string>()];
+	if((pnp == nullptr) || pnp->is_terminal) {
+	  pnp = new PropertyTree::PropNode(prop, "", false);
+	}
 	fillRecurse(YAML::Node (it->second), pnp);
       }
 
-- 
2.43.0


From 8196dacefe0a0b1d24a9265ec487fe3a99bb466b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 27/29] fix: malformed YAML is reported as
 PropertyTree::BadSyntax

---
 include/PropertyTree.hxx | 5 +++++
 src/PropertyTree.cxx     | 5 +++++
 src/PropertyTreeYAML.cxx | 9 ++++++---
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/PropertyTree.hxx b/include/PropertyTree.hxx
index bb3225c..297e1b5 100644
--- a/include/PropertyTree.hxx
+++ b/include/PropertyTree.hxx
@@ -261,6 +261,11 @@ namespace SoDa {
       FileNotFound(const std::string & fname);
     }; 
 
+    class BadSyntax : public SoDa::Exception {
+    public:
+      BadSyntax(const std::string & problem);
+    }; 
+
   protected:
     PropNode * root; 
   };
diff --git a/src/PropertyTree.cxx b/src/PropertyTree.cxx
index 0cda66d..55d6c79 100644
--- a/src/PropertyTree.cxx
+++ b/src/PropertyTree.cxx
@@ -150,6 +150,11 @@ namespace SoDa {
 	      .addS(str).str())
   {
   }
+  PropertyTree::BadSyntax::BadSyntax(const std::string & problem) :
+    Exception(SoDa::Format("PropertyTree::BadSyntax \"%0\"")
+	      .addS(problem).str())
+  {
+  }
   PropertyTree::PropNode::PropertyNotFound::PropertyNotFound(const std::string & str) :
     Exception(SoDa::Format("PropertyTree::PropNode::PropertyNotFound \"%0\"")
 	      .addS(str)
diff --git a/src/PropertyTreeYAML.cxx b/src/PropertyTreeYAML.cxx
index 219a7b6..21bf857 100644
--- a/src/PropertyTreeYAML.cxx
+++ b/src/PropertyTreeYAML.cxx
@@ -46,13 +46,16 @@ namespace SoDa {
     
     try {
       TopNode = YAML::LoadFile(filename);
+
+      // now recursively create the tree
+      fillRecurse(TopNode, root);
     }
     catch(YAML::BadFile & e) {
       throw PropertyTree::FileNotFound(e.what());
     }
-    
-    // now recursively create the tree
-    fillRecurse(TopNode, root);
+    catch(YAML::Exception & e) {
+      throw PropertyTree::BadSyntax(e.what());
+    }
   }
   
   void PropertyTreeYAML::fillRecurse(const YAML::Node & node,
-- 
2.43.0


From ad92a1d955f65033f389687e3a7acf06dfed73c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 28/29] fix: a copy of a Format_ext object chains to itself

---
 include/Format.hxx | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/Format.hxx b/include/Format.hxx
index e2bd254..70403cb 100644
--- a/include/Format.hxx
+++ b/include/Format.hxx
@@ -577,6 +577,19 @@ namespace SoDa {
       saved_ptr = p; 
     }
 
+    /**
+     * @brief A copy must chain to itself, and not to the object that
+     * it was copied from, which may be gone by then.
+     */
+    Format_ext(const Format_ext & other) : Format(other) {
+      saved_ptr = static_cast<T *>(this); 
+    }
+
+    Format_ext & operator=(const Format_ext & other) {
+      Format::operator=(other);
+      return *this; 
+    }
+
     /**
      * This wraps the addI method from the Format baseclass, but returns
      * a reference to the derived class.   So do all the other 
-- 
2.43.0


From 2dba66f757967a00dbb00f4d547f31aaf51693da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:15 +0000
Subject: [PATCH 29/29] fix: SubscriptionMismatch drops the name of the
 subscription's mailbox

The name was passed to a format string without a placeholder.
---
 include/MailBox.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/MailBox.hxx b/include/MailBox.hxx
index 6474975..2406826 100644
--- a/include/MailBox.hxx
+++ b/include/MailBox.hxx
@@ -193,7 +193,7 @@ namespace SoDa {
   public:
     SubscriptionMismatch(const std::string & should_be
 			 , const std::string & was) : 
-      Exception(should_be, SoDa::Format("caller specified the wrong mailbox")
+      Exception(should_be, SoDa::Format("caller specified the wrong mailbox, the subscription is for [%0]")
 		       .addS(was).str()) {
     }
   }; 
-- 
2.43.0

