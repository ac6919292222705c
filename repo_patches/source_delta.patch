From 427711a3c98e4952205c1b252103e23eab3d74dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:39 +0000
Subject: [PATCH 01/45] fix: reject base64 text with data after or inside the
 padding

---
 libiqxmlrpc/value_type.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libiqxmlrpc/value_type.cc b/libiqxmlrpc/value_type.cc
index b35fb36..443f4a2 100644
--- a/libiqxmlrpc/value_type.cc
+++ b/libiqxmlrpc/value_type.cc
@@ -447,7 +447,7 @@ inline void Binary_data::decode_four( const std::string& four )
   char c3 = four[2];
   char c4 = four[3];
 
-  if( c1 == '=' || c2 == '=' )
+  if( c1 == '=' || c2 == '=' || (c3 == '=' && c4 != '=') )
     throw Malformed_base64();
 
   try {
@@ -471,16 +471,22 @@ void Binary_data::decode()
   const char* d = base64.data();
   size_t dsz = base64.length();
   std::string four;
+  bool padded = false;
 
   for( size_t i = 0; i < dsz; i++ )
   {
-    if( isspace( d[i] ) )
+    if( isspace( static_cast<unsigned char>(d[i]) ) )
       continue;
 
+    // nothing can follow the padding
+    if( padded )
+      throw Malformed_base64();
+
     four += d[i];
     if( four.length() == 4 )
     {
       decode_four( four );
+      padded = four[3] == '=';
       four.erase();
     }
   }
-- 
2.43.0


From 22183a79f3f5618672e392391446bfc33c4cc1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:39 +0000
Subject: [PATCH 02/45] fix: check every position of a dateTime.iso8601 text

Separators and the last character were not checked, and 'T' or ':' were
accepted in place of digits.  Also initialise the unset struct tm fields.
---
 libiqxmlrpc/value_type.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/libiqxmlrpc/value_type.cc b/libiqxmlrpc/value_type.cc
index 443f4a2..4d3aa93 100644
--- a/libiqxmlrpc/value_type.cc
+++ b/libiqxmlrpc/value_type.cc
@@ -531,13 +531,19 @@ Date_time::Date_time( bool use_lt )
 
 Date_time::Date_time( const std::string& s )
 {
-  if( s.length() != 17 || s[8] != 'T' )
+  // "0" stands for any decimal digit
+  static const char pattern[] = "00000000T00:00:00";
+  if( s.length() != 17 )
     throw Malformed_iso8601();
 
-  char alpha[] = "0123456789T:";
-  if( s.substr(0, 16).find_first_not_of(alpha) != std::string::npos )
-    throw Malformed_iso8601();
+  for( size_t i = 0; i < 17; ++i )
+  {
+    bool ok = pattern[i] == '0' ? s[i] >= '0' && s[i] <= '9' : s[i] == pattern[i];
+    if( !ok )
+      throw Malformed_iso8601();
+  }
 
+  tm_ = tm();
   tm_.tm_year = atoi( s.substr(0, 4).c_str() ) - 1900;
   tm_.tm_mon  = atoi( s.substr(4, 2).c_str() ) - 1;
   tm_.tm_mday = atoi( s.substr(6, 2).c_str() );
-- 
2.43.0


From 6a07ad6c3cf31fcac206377789da6afdb1c62416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:39 +0000
Subject: [PATCH 03/45] fix: release the member value in Struct::erase

---
 libiqxmlrpc/value_type.cc | 12 ++++++++++++
 libiqxmlrpc/value_type.h  |  2 +-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/value_type.cc b/libiqxmlrpc/value_type.cc
index 4d3aa93..00e398a 100644
--- a/libiqxmlrpc/value_type.cc
+++ b/libiqxmlrpc/value_type.cc
@@ -303,6 +303,18 @@ void Struct::clear()
   values.clear();
 }
 
+void Struct::erase( const std::string& key )
+{
+  iterator i = values.find(key);
+
+  if( i != values.end() )
+  {
+    delete i->second;
+    values.erase(i);
+  }
+}
+
+
 void Struct::insert( const std::string& f, Value_ptr val )
 {
   Value*& tmp = values[f];
diff --git a/libiqxmlrpc/value_type.h b/libiqxmlrpc/value_type.h
index e6650be..9e2f5fb 100644
--- a/libiqxmlrpc/value_type.h
+++ b/libiqxmlrpc/value_type.h
@@ -249,7 +249,7 @@ public:
   const_iterator find( const std::string& key ) const { return values.find(key); }
   iterator find( const std::string& key ) { return values.find(key); }
 
-  void erase( const std::string& key ) { values.erase(key); }
+  void erase( const std::string& key );
 };
 
 #ifdef _MSC_VER
-- 
2.43.0


From e26bd6cbb07fdb2297457e1a09f7eee37df37a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:55 +0000
Subject: [PATCH 04/45] fix: keep white-space, CDATA and comment-split text
 when reading elements

Text of an element that consists of white space only, that is written as
a CDATA section, or that is interrupted by a comment was lost or cut
short.  Adjacent text nodes are now joined.  White space counts as data
only when it is the whole content of an element.

The end tag of an empty name element is no longer swallowed.
---
 libiqxmlrpc/parser2.cc | 68 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 55 insertions(+), 13 deletions(-)

diff --git a/libiqxmlrpc/parser2.cc b/libiqxmlrpc/parser2.cc
index afdd7f1..859e97f 100644
--- a/libiqxmlrpc/parser2.cc
+++ b/libiqxmlrpc/parser2.cc
@@ -126,7 +126,10 @@ public:
 
     ParseStep():
       done(false),
-      is_empty(false)
+      element_begin(false),
+      element_end(false),
+      is_empty(false),
+      is_text(false)
     {
     }
 
@@ -135,7 +138,10 @@ public:
       element_begin(type == XML_READER_TYPE_ELEMENT),
       element_end(type == XML_READER_TYPE_END_ELEMENT),
       is_empty(element_begin && xmlTextReaderIsEmptyElement(reader)),
-      is_text(type == XML_READER_TYPE_TEXT)
+      is_text(type == XML_READER_TYPE_TEXT ||
+        type == XML_READER_TYPE_CDATA ||
+        type == XML_READER_TYPE_WHITESPACE ||
+        type == XML_READER_TYPE_SIGNIFICANT_WHITESPACE)
     {
     }
   };
@@ -148,14 +154,37 @@ public:
       return curr;
     }
 
+    const bool after_begin = curr.element_begin;
+    text.clear();
+
+    for (read_node(); is_text_node() || is_ignored_node(); read_node()) {
+      if (is_text_node())
+        text += to_string(xmlTextReaderValue(reader));
+    }
+
+    // White space is data only when it is the whole content of an element.
+    const bool blank = text.find_first_not_of(" \t\r\n") == std::string::npos;
+    if (text.empty() || (blank && !(after_begin && curr.element_end)))
+      return curr;
+
+    pushed_back = true;
+    ParseStep step;
+    step.is_text = true;
+    return step;
+  }
+
+  void
+  read_node()
+  {
     if (curr.is_empty) {
       curr.element_begin = false;
       curr.element_end = true;
       curr.is_empty = false;
-      return curr;
+      return;
     }
 
     int code = xmlTextReaderRead(reader);
+    curr = ParseStep();
     curr.done = true;
 
     if (code < 0) {
@@ -166,8 +195,18 @@ public:
     if (code > 0) {
       curr = ParseStep(node_type(), reader);
     }
+  }
 
-    return curr;
+  bool
+  is_text_node() const
+  {
+    return curr.is_text;
+  }
+
+  bool
+  is_ignored_node() const
+  {
+    return !curr.done && !curr.element_begin && !curr.element_end && !curr.is_text;
   }
 
   int
@@ -199,15 +238,17 @@ public:
   std::string
   read_data()
   {
-    if (!curr.is_text && !curr.element_end)
-    {
-      read();
-      if (!curr.is_text && !curr.element_end) {
-        std::string err = "text is expected at " + get_context();
-        throw XML_RPC_violation(err);
-      }
+    ParseStep step = read();
+    if (step.is_text)
+      return text;
+
+    if (!step.element_end) {
+      std::string err = "text is expected at " + get_context();
+      throw XML_RPC_violation(err);
     }
-    return to_string(xmlTextReaderValue(reader));
+
+    pushed_back = true;
+    return std::string();
   }
 
   std::string
@@ -220,6 +261,7 @@ public:
   const std::string buf;
   xmlTextReaderPtr reader;
   ParseStep curr;
+  std::string text;
   bool pushed_back;
 };
 
@@ -244,7 +286,7 @@ Parser::parse(BuilderBase& builder)
       builder.visit_element_end(impl_->tag_name());
 
     } else if (p.is_text && builder.expects_text()) {
-      builder.visit_text(get_data());
+      builder.visit_text(impl_->text);
     }
 
     if (builder.wants_exit())
-- 
2.43.0


From 30cfa40558b12572cb76dd38ec42e5f49ee6bb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:55 +0000
Subject: [PATCH 05/45] fix: keep the string tag of white-space strings in
 responses

With string tags omitted from responses a string of white space only was
read back as an empty string.
---
 libiqxmlrpc/value_type_xml.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/value_type_xml.cc b/libiqxmlrpc/value_type_xml.cc
index 541e293..f65059b 100644
--- a/libiqxmlrpc/value_type_xml.cc
+++ b/libiqxmlrpc/value_type_xml.cc
@@ -51,7 +51,9 @@ void Value_type_to_xml::do_visit_bool(bool val)
 
 void Value_type_to_xml::do_visit_string(const std::string& val)
 {
-  if (server_mode_ && Value::omit_string_tag_in_responses()) {
+  // White space outside of <string> is formatting, it would be lost.
+  const bool blank = val.find_first_not_of(" \t\r\n") == std::string::npos;
+  if (server_mode_ && Value::omit_string_tag_in_responses() && (!blank || val.empty())) {
     builder_.add_textdata(val);
   } else {
     add_textnode("string", val);
-- 
2.43.0


From a8f447160ab25e09251ab695a5639c5755ceb7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:55 +0000
Subject: [PATCH 06/45] fix: read nil inside arrays and structs, release values
 of broken documents

A nil element ended its value before its own end tag was read, so the
elements after it were attributed to the wrong parent.  A member value
was leaked when the document turned out to be malformed later on.
---
 libiqxmlrpc/value_parser.cc | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/libiqxmlrpc/value_parser.cc b/libiqxmlrpc/value_parser.cc
index 49159a6..1f8d3b1 100644
--- a/libiqxmlrpc/value_parser.cc
+++ b/libiqxmlrpc/value_parser.cc
@@ -19,8 +19,7 @@ class StructBuilder: public ValueBuilderBase {
 public:
   StructBuilder(Parser& parser):
     ValueBuilderBase(parser),
-    state_(parser, NONE),
-    value_(0)
+    state_(parser, NONE)
   {
     static const StateMachine::StateTransition trans[] = {
       { NONE, MEMBER, "member" },
@@ -49,8 +48,9 @@ private:
       break;
 
     case VALUE_READ:
-      value_ = sub_build<Value_type*, ValueBuilder>();
-      value_ = value_ ? value_ : new String("");
+      value_.reset(sub_build<Value_type*, ValueBuilder>());
+      if (!value_.get())
+        value_.reset(new String(""));
       break;
 
     case MEMBER:
@@ -69,7 +69,7 @@ private:
         throw XML_RPC_violation(parser_.context());
       }
 
-      Value_ptr v(new Value(value_));
+      Value_ptr v(new Value(value_.release()));
       proxy_->insert(name_, v);
       state_.set_state(NONE);
     }
@@ -77,7 +77,7 @@ private:
 
   StateMachine state_;
   std::string name_;
-  Value_type* value_;
+  std::auto_ptr<Value_type> value_;
   Struct* proxy_;
 };
 
@@ -170,8 +170,9 @@ ValueBuilder::do_visit_element(const std::string& tagname)
     break;
 
   case NIL:
+    // wait for </nil> like for the end of any other scalar
     retval.reset(new Nil());
-    break;
+    return;
 
   default:
     // wait for text within <i4>...</i4>, etc...
@@ -206,7 +207,7 @@ ValueBuilder::do_visit_element_end(const std::string&)
 
   case INT64:
     if (default_int64.get()) {
-      retval.reset(new Int64(default_int64.release()->value()));
+      retval.reset(default_int64.release());
       break;
     }
     throw XML_RPC_violation(parser_.context());
@@ -225,6 +226,10 @@ ValueBuilder::do_visit_text(const std::string& text)
 {
   using boost::lexical_cast;
 
+  const bool blank = text.find_first_not_of(" \t\r\n") == std::string::npos;
+  if (blank && state_.get_state() != STRING)
+    return; // same as empty element
+
   switch (state_.get_state()) {
   case VALUE:
     want_exit();
-- 
2.43.0


From fff3f9d6f49dd891d4f5b74eaf301349416f9bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:53:51 +0000
Subject: [PATCH 07/45] fix: end the HTTP header at its first blank line

A CRLF blank line was preferred even when it came after an LF one.
A body containing CRLF CRLF was then taken for a part of the header
if it arrived in the same read.
---
 libiqxmlrpc/http.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libiqxmlrpc/http.cc b/libiqxmlrpc/http.cc
index 88dc6ad..f250bef 100644
--- a/libiqxmlrpc/http.cc
+++ b/libiqxmlrpc/http.cc
@@ -435,9 +435,11 @@ bool Packet_reader::read_header( const std::string& s )
 
   header_cache += s;
   iterator_range<std::string::iterator> i = find_first(header_cache, "\r\n\r\n");
+  iterator_range<std::string::iterator> lf = find_first(header_cache, "\n\n");
 
-  if( i.begin() == i.end() )
-    i = boost::find_first(header_cache, "\n\n");
+  // The first blank line ends the header, whatever its style.
+  if( i.begin() == i.end() || (lf.begin() != lf.end() && lf.begin() < i.begin()) )
+    i = lf;
 
   if( i.begin() == i.end() )
     return false;
-- 
2.43.0


From a46225dcfb9789bd97ddab17077f37d2f518767b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:53:51 +0000
Subject: [PATCH 08/45] fix: keep all words of the HTTP reason phrase

Only the first word of the phrase was kept when parsing a response.
---
 libiqxmlrpc/http.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libiqxmlrpc/http.cc b/libiqxmlrpc/http.cc
index f250bef..d0bd77f 100644
--- a/libiqxmlrpc/http.cc
+++ b/libiqxmlrpc/http.cc
@@ -349,8 +349,8 @@ Response_header::Response_header(Verification_level lev, const std::string& to_p
     code_ = 0;
   }
 
-  if (resp_line.size() > 2)
-    phrase_ = resp_line[2];
+  for (size_t i = 2; i < resp_line.size(); ++i)
+    phrase_ += (i > 2 ? " " : "") + resp_line[i];
 }
 
 Response_header::Response_header( int c, const std::string& p ):
-- 
2.43.0


From 15b9b118a4c35d75156f1bad6a2081e1373cefe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:53:51 +0000
Subject: [PATCH 09/45] fix: send a valid Allow header with status 405

The header was emitted as "allowed:: POST".
---
 libiqxmlrpc/http_errors.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libiqxmlrpc/http_errors.h b/libiqxmlrpc/http_errors.h
index ca7261c..a57ddd6 100644
--- a/libiqxmlrpc/http_errors.h
+++ b/libiqxmlrpc/http_errors.h
@@ -32,7 +32,7 @@ public:
   Method_not_allowed():
     Error_response( "Method not allowed", 405 )
   {
-    header_->set_option( "allowed:", "POST" );
+    header_->set_option( "allow", "POST" );
   }
 };
 
-- 
2.43.0


From 79110f3c747dd42aaeb3551f47cf54db00c861e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:53:51 +0000
Subject: [PATCH 10/45] fix: answer undecodable credentials with 401

Malformed base64 in the Authorization header was reported as an
XML-RPC fault in a 200 response.
---
 libiqxmlrpc/http.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libiqxmlrpc/http.cc b/libiqxmlrpc/http.cc
index d0bd77f..5c3ed9b 100644
--- a/libiqxmlrpc/http.cc
+++ b/libiqxmlrpc/http.cc
@@ -312,8 +312,13 @@ void Request_header::get_authinfo(std::string& user, std::string& pw) const
   if (v[0] != "basic")
     throw Unauthorized();
 
-  boost::scoped_ptr<Binary_data> bin_authinfo( Binary_data::from_base64(v[1]) );
-  std::string data = bin_authinfo->get_data();
+  std::string data;
+  try {
+    boost::scoped_ptr<Binary_data> bin_authinfo( Binary_data::from_base64(v[1]) );
+    data = bin_authinfo->get_data();
+  } catch (const Binary_data::Malformed_base64&) {
+    throw Unauthorized();
+  }
 
   size_t colon_it = data.find_first_of(":");
   user = data.substr(0, colon_it);
-- 
2.43.0


From af185647c14c3b28b9cc18c3602db33bc9aa0d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:04:47 +0000
Subject: [PATCH 11/45] fix: answer every 100-continue expectation on a
 persistent connection

Only the first request of a connection got the interim reply, clients
of later requests waited for it in vain.
---
 libiqxmlrpc/http.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libiqxmlrpc/http.cc b/libiqxmlrpc/http.cc
index 5c3ed9b..cf6d11a 100644
--- a/libiqxmlrpc/http.cc
+++ b/libiqxmlrpc/http.cc
@@ -417,6 +417,7 @@ void Packet_reader::clear()
   header_cache.erase();
   constructed = false;
   total_sz = 0;
+  continue_sent_ = false;
 }
 
 void Packet_reader::check_sz( size_t sz )
-- 
2.43.0


From d161df3aa2c92d11a099a07ee7a0a8c2093318ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:04:47 +0000
Subject: [PATCH 12/45] fix: do not overwrite a partly sent 100-continue reply

If the rest of the request arrived while the interim reply was only
partly sent, its remainder was dropped and the final reply followed
in the middle of the status line.
---
 libiqxmlrpc/http_server.cc | 8 +++-----
 libiqxmlrpc/server_conn.cc | 3 ++-
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/libiqxmlrpc/http_server.cc b/libiqxmlrpc/http_server.cc
index 7353515..075e723 100644
--- a/libiqxmlrpc/http_server.cc
+++ b/libiqxmlrpc/http_server.cc
@@ -107,7 +107,9 @@ void Http_server_connection::handle_output( bool& terminate )
 {
   size_t sz = send( response.c_str(), response.length() );
 
-  if( sz == response.length() )
+  response.erase( 0, sz );
+
+  if( response.empty() )
   {
     if( keep_alive )
     {
@@ -116,11 +118,7 @@ void Http_server_connection::handle_output( bool& terminate )
     }
     else
       terminate = true;
-
-    return;
   }
-
-  response.erase( 0, sz );
 }
 
 
diff --git a/libiqxmlrpc/server_conn.cc b/libiqxmlrpc/server_conn.cc
index 83dd8ad..c8425d0 100644
--- a/libiqxmlrpc/server_conn.cc
+++ b/libiqxmlrpc/server_conn.cc
@@ -52,7 +52,8 @@ void Server_connection::schedule_response( http::Packet* pkt )
 {
   std::auto_ptr<http::Packet> p(pkt);
   p->set_keep_alive( keep_alive );
-  response = p->dump();
+  // a not yet completely sent interim reply goes first
+  response += p->dump();
   do_schedule_response();
 }
 
-- 
2.43.0


From 25004b830067d0adfb828155152bbab2acc63e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:06:41 +0000
Subject: [PATCH 13/45] fix: do not free the executor twice when a response
 cannot be built

The executor was deleted before the exception left schedule_response()
and once more by the handler that sends the error response.
---
 libiqxmlrpc/server.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/server.cc b/libiqxmlrpc/server.cc
index 180eb55..06ac857 100644
--- a/libiqxmlrpc/server.cc
+++ b/libiqxmlrpc/server.cc
@@ -237,8 +237,9 @@ void Server::schedule_execute( http::Packet* pkt, Server_connection* conn )
 void Server::schedule_response(
   const Response& resp, Server_connection* conn, Executor* exec )
 {
-  std::auto_ptr<Executor> executor_to_delete(exec);
+  // if it throws the caller still owns the executor
   std::string resp_str = dump_response(resp);
+  std::auto_ptr<Executor> executor_to_delete(exec);
   http::Packet *packet = new http::Packet(new http::Response_header(), resp_str);
   conn->schedule_response( packet );
 }
-- 
2.43.0


From 51c9a0e6253eca00a6b77ad838eb881fbd268e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:12:38 +0000
Subject: [PATCH 14/45] fix: ignore further input of a refused request

A connection kept reading after an HTTP error response was scheduled.
The rest of the refused request was then parsed as a new one and a
second error response was sent.
---
 libiqxmlrpc/http_server.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libiqxmlrpc/http_server.cc b/libiqxmlrpc/http_server.cc
index 075e723..618058a 100644
--- a/libiqxmlrpc/http_server.cc
+++ b/libiqxmlrpc/http_server.cc
@@ -98,6 +98,7 @@ void Http_server_connection::handle_input( bool& terminate )
   {
     // Close connection after sending HTTP error response
     keep_alive = false;
+    reactor->unregister_handler( this, Reactor_base::INPUT );
     schedule_response( new http::Packet(e) );
   }
 }
-- 
2.43.0


From 0aebc06ce1bddeedeb0a43dd1a0655bc4b4a7ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:12:38 +0000
Subject: [PATCH 15/45] fix: release a replaced method factory

---
 libiqxmlrpc/dispatcher_manager.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/dispatcher_manager.cc b/libiqxmlrpc/dispatcher_manager.cc
index 1794be5..21fd7ea 100644
--- a/libiqxmlrpc/dispatcher_manager.cc
+++ b/libiqxmlrpc/dispatcher_manager.cc
@@ -41,7 +41,12 @@ Default_method_dispatcher::~Default_method_dispatcher()
 void Default_method_dispatcher::register_method
   ( const std::string& name, Method_factory_base* fb )
 {
-  fs[name] = fb;
+  Method_factory_base*& f = fs[name];
+
+  if( f != fb )
+    delete f;
+
+  f = fb;
 }
 
 Method* Default_method_dispatcher::do_create_method(const std::string& name)
-- 
2.43.0


From a0a240a42da7c94a8aa6e1acb748dc2cf79588c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:12:38 +0000
Subject: [PATCH 16/45] fix: keep serving when accepting of one peer fails

---
 libiqxmlrpc/acceptor.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/acceptor.cc b/libiqxmlrpc/acceptor.cc
index 535abaa..a66fbc9 100644
--- a/libiqxmlrpc/acceptor.cc
+++ b/libiqxmlrpc/acceptor.cc
@@ -39,7 +39,13 @@ void Acceptor::set_firewall( iqnet::Firewall_base* fw )
 
 void Acceptor::handle_input( bool& )
 {
-  accept();
+  try {
+    accept();
+  }
+  catch( const network_error& )
+  {
+    // A failure of one peer must not stop serving of others.
+  }
 }
 
 
-- 
2.43.0


From e76bdb38f1540dbd038d0bc4672339e43228f104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:12:38 +0000
Subject: [PATCH 17/45] fix: close sockets refused by the firewall

The zero linger timeout is dropped because closing the socket would
discard the message of the firewall.
---
 libiqxmlrpc/acceptor.cc | 16 ++++++++++++----
 libiqxmlrpc/socket.cc   |  2 --
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/libiqxmlrpc/acceptor.cc b/libiqxmlrpc/acceptor.cc
index a66fbc9..4058f6b 100644
--- a/libiqxmlrpc/acceptor.cc
+++ b/libiqxmlrpc/acceptor.cc
@@ -63,13 +63,21 @@ void Acceptor::accept()
   {
     std::string msg = firewall->message();
 
-    if (!msg.empty())
+    try {
+      if (!msg.empty())
+      {
+        new_sock.send_shutdown(msg.c_str(), msg.size());
+      } else {
+        new_sock.shutdown();
+      }
+    }
+    catch( ... )
     {
-      new_sock.send_shutdown(msg.c_str(), msg.size());
-    } else {
-      new_sock.shutdown();
+      new_sock.close();
+      throw;
     }
 
+    new_sock.close();
     return;
   }
 
diff --git a/libiqxmlrpc/socket.cc b/libiqxmlrpc/socket.cc
index ea3463f..26eee96 100644
--- a/libiqxmlrpc/socket.cc
+++ b/libiqxmlrpc/socket.cc
@@ -96,8 +96,6 @@ size_t Socket::recv( char* buf, size_t len )
 void Socket::send_shutdown( const char* data, size_t len )
 {
   send(data, len);
-  const struct linger ling = {1, 0};
-  ::setsockopt( sock, SOL_SOCKET, SO_LINGER, reinterpret_cast<const char*>(&ling), sizeof(ling) );
   ::shutdown( sock, 1 );
 }
 
-- 
2.43.0


From 4f731faf5339dd472c5fd93d5d454cb413cd76f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:27:39 +0000
Subject: [PATCH 18/45] fix: report every failed host lookup

After a failed lookup the address was considered resolved, and the
next use silently got a zero address.
---
 libiqxmlrpc/inet_addr.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libiqxmlrpc/inet_addr.cc b/libiqxmlrpc/inet_addr.cc
index 21d52bc..bdc0070 100644
--- a/libiqxmlrpc/inet_addr.cc
+++ b/libiqxmlrpc/inet_addr.cc
@@ -92,12 +92,13 @@ Inet_addr::Impl::Impl( const SystemSockAddrIn& s ):
 void
 Inet_addr::Impl::init_sockaddr() const
 {
-  sa = SystemSockAddrIn();
+  SystemSockAddrIn addr = SystemSockAddrIn();
   struct hostent* hent = 0;
   IQXMLRPC_GETHOSTBYNAME(host.c_str());
-  sa->sin_family = PF_INET;
-  sa->sin_port = htons(port);
-  memcpy( (char*)&(sa->sin_addr), (char*)hent->h_addr, hent->h_length );
+  addr.sin_family = PF_INET;
+  addr.sin_port = htons(port);
+  memcpy( (char*)&(addr.sin_addr), (char*)hent->h_addr, hent->h_length );
+  sa = addr;
 }
 
 Inet_addr::Inet_addr( const std::string& host, int port ):
-- 
2.43.0


From af31e5b9b6901eb47806de5a31d91876e46a11cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:27:39 +0000
Subject: [PATCH 19/45] fix: close the socket of a failed connection attempt

The socket leaked unless the failure was reported asynchronously. A wait
interrupted by a signal was also taken for an established connection.
---
 libiqxmlrpc/connector.cc | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/libiqxmlrpc/connector.cc b/libiqxmlrpc/connector.cc
index 83d6626..c07c0b4 100644
--- a/libiqxmlrpc/connector.cc
+++ b/libiqxmlrpc/connector.cc
@@ -15,9 +15,11 @@ namespace iqnet {
 struct Connect_processor: public Event_handler {
   Reactor_base& reactor;
   Socket sock;
+  bool connected;
 
   Connect_processor(Reactor_base& r):
-    reactor(r)
+    reactor(r),
+    connected(false)
   {
     sock.set_non_blocking(true);
   }
@@ -32,10 +34,10 @@ struct Connect_processor: public Event_handler {
     terminate = true;
     int err = sock.get_last_error();
 
-    if (err && err != IQXMLRPC_INPROGRESS) {
-      sock.close();
+    if (err && err != IQXMLRPC_INPROGRESS)
       throw network_error("Connector", true, err);
-    }
+
+    connected = true;
   }
 };
 
@@ -53,17 +55,24 @@ Connector_base::connect(int timeout)
 {
   Reactor<Null_lock> reactor;
   Connect_processor connector(reactor);
-  bool done = connector.sock.connect( peer_addr );
 
-  if (done)
-    return create_connection( connector.sock );
+  try {
+    connector.connected = connector.sock.connect( peer_addr );
+
+    if (!connector.connected)
+      reactor.register_handler( &connector, Reactor_base::OUTPUT );
 
-  reactor.register_handler( &connector, Reactor_base::OUTPUT );
+    int ms = timeout > 0 ? timeout*1000 : -1;
 
-  int ms = timeout > 0 ? timeout*1000 : -1;
-  if (!reactor.handle_events(ms)) {
+    // The wait may also end because of a signal.
+    while (!connector.connected) {
+      if (!reactor.handle_events(ms))
+        throw iqxmlrpc::Client_timeout();
+    }
+  }
+  catch (...) {
     connector.sock.close();
-    throw iqxmlrpc::Client_timeout();
+    throw;
   }
 
   return create_connection( connector.sock );
-- 
2.43.0


From d68d7018fa6aac75f41120e3505e1308ed1bce93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:27:39 +0000
Subject: [PATCH 20/45] fix: do not reuse a persistent connection after a
 failed call

The next call could have got the late answer of the failed one.
---
 libiqxmlrpc/client.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/client.cc b/libiqxmlrpc/client.cc
index a2ffe2b..e64dea5 100644
--- a/libiqxmlrpc/client.cc
+++ b/libiqxmlrpc/client.cc
@@ -137,7 +137,15 @@ Response Client_base::execute(
   Auto_conn conn( *impl_.get(), *this );
   conn->set_options(impl_->opts);
 
-  return conn->process_session( req, xheaders );
+  try {
+    return conn->process_session( req, xheaders );
+  }
+  catch( ... )
+  {
+    // The answer may still arrive, so the connection can not be reused.
+    impl_->conn_cache.reset();
+    throw;
+  }
 }
 
 } // namespace iqxmlrpc
-- 
2.43.0


From d8e27e83640c11c9f1ce62ce4f200bd462fd5266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:27:39 +0000
Subject: [PATCH 21/45] fix: do not read again after a read that filled the
 buffer

If no more data had arrived yet the second read failed and so did the
call. The event loop reports the rest of the response anyway.
---
 libiqxmlrpc/http_client.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/libiqxmlrpc/http_client.cc b/libiqxmlrpc/http_client.cc
index e7122ef..33ffdd2 100644
--- a/libiqxmlrpc/http_client.cc
+++ b/libiqxmlrpc/http_client.cc
@@ -54,13 +54,12 @@ void Http_client_connection::handle_output( bool& )
 
 void Http_client_connection::handle_input( bool& )
 {
-  for( size_t sz = read_buf_sz(); (sz == read_buf_sz()) && !resp_packet ; )
-  {
-    if( !(sz = recv( read_buf(), read_buf_sz() )) )
-      throw iqnet::network_error( "Connection closed by peer.", false );
+  size_t sz = recv( read_buf(), read_buf_sz() );
 
-    resp_packet = read_response( std::string(read_buf(), sz) );
-  }
+  if( !sz )
+    throw iqnet::network_error( "Connection closed by peer.", false );
+
+  resp_packet = read_response( std::string(read_buf(), sz) );
 
   if( resp_packet )
     reactor->unregister_handler( this );
-- 
2.43.0


From 4edc8a4b810f2583ee946f0a45df83e1c22bf0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:27:39 +0000
Subject: [PATCH 22/45] fix: skip events of handlers unregistered in the same
 round

---
 libiqxmlrpc/reactor_impl.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/reactor_impl.h b/libiqxmlrpc/reactor_impl.h
index fd2e4de..b594e78 100644
--- a/libiqxmlrpc/reactor_impl.h
+++ b/libiqxmlrpc/reactor_impl.h
@@ -210,7 +210,10 @@ void Reactor<Lock>::invoke_event_handler( Reactor_base::HandlerState& hs )
   bool terminate = false;
 
   Event_handler* handler = find_handler(hs.fd);
-  assert(handler);
+
+  // it could have been unregistered by another handler
+  if( !handler )
+    return;
 
   if( handler->catch_in_reactor() )
     invoke_servers_handler( handler, hs, terminate );
-- 
2.43.0


From 06949ca24681702bdddda64147103227ceaed717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:27:39 +0000
Subject: [PATCH 23/45] fix: count a stopper once however often it is
 registered

---
 libiqxmlrpc/reactor_impl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libiqxmlrpc/reactor_impl.h b/libiqxmlrpc/reactor_impl.h
index b594e78..e82c972 100644
--- a/libiqxmlrpc/reactor_impl.h
+++ b/libiqxmlrpc/reactor_impl.h
@@ -108,15 +108,15 @@ void Reactor<Lock>::register_handler( Event_handler* eh, Event_mask mask )
 {
   scoped_lock lk(lock);
 
-  if (eh->is_stopper())
-    num_stoppers++;
-
   Socket::Handler fd = eh->get_handler();
 
   if( handlers.find(fd) == handlers.end() )
   {
     handlers_states.push_back( HandlerState(fd, mask) );
     handlers[fd] = eh;
+
+    if (eh->is_stopper())
+      num_stoppers++;
   }
   else
   {
-- 
2.43.0


From b6063f9d62344f4f707c8218886114f7260d9959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:31:40 +0000
Subject: [PATCH 24/45] fix: keep the other events when unregistering a handler
 for one

Unregistering a handler for one kind of events dropped all of them.
Injected events were delivered even if the handler was not registered
for them. The HTTP connection relied on the former, so it now says that
it wants no events at all.
---
 libiqxmlrpc/http_server.cc | 4 ++--
 libiqxmlrpc/reactor_impl.h | 7 ++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/libiqxmlrpc/http_server.cc b/libiqxmlrpc/http_server.cc
index 618058a..0c4f455 100644
--- a/libiqxmlrpc/http_server.cc
+++ b/libiqxmlrpc/http_server.cc
@@ -91,14 +91,14 @@ void Http_server_connection::handle_input( bool& terminate )
     if( !packet )
       return;
 
-    reactor->unregister_handler( this, Reactor_base::INPUT );
+    reactor->unregister_handler( this );
     server->schedule_execute( packet, this );
   }
   catch( const http::Error_response& e )
   {
     // Close connection after sending HTTP error response
     keep_alive = false;
-    reactor->unregister_handler( this, Reactor_base::INPUT );
+    reactor->unregister_handler( this );
     schedule_response( new http::Packet(e) );
   }
 }
diff --git a/libiqxmlrpc/reactor_impl.h b/libiqxmlrpc/reactor_impl.h
index e82c972..ecd2455 100644
--- a/libiqxmlrpc/reactor_impl.h
+++ b/libiqxmlrpc/reactor_impl.h
@@ -133,7 +133,7 @@ void Reactor<Lock>::unregister_handler( Event_handler* eh, Event_mask mask )
 
   if( i != end() )
   {
-    int newmask = (i->mask &= !mask);
+    int newmask = (i->mask &= ~mask);
 
     if( !newmask )
     {
@@ -235,10 +235,11 @@ void Reactor<Lock>::handle_user_events()
 
   for( hs_iterator i = begin(); i != end(); ++i )
   {
-    if( i->revents && (i->mask | i->revents) )
+    if( i->revents & i->mask )
     {
       called_by_user.push_back( *i );
-      i->revents &= !i->mask;
+      called_by_user.back().revents &= i->mask;
+      i->revents &= ~i->mask;
     }
   }
 
-- 
2.43.0


From e9b81eb8923a7eceec27dd7651e97200c95ac91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:31 +0000
Subject: [PATCH 25/45] fix: do not abort when OpenSSL has no text for an error

ERR_reason_error_string() returns NULL for errors it has no text for,
in particular for the want-read and want-write results of a
non-blocking connection. Building a std::string from NULL throws inside
a constructor declared throw(), which terminates the program.
---
 libiqxmlrpc/ssl_lib.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/libiqxmlrpc/ssl_lib.cc b/libiqxmlrpc/ssl_lib.cc
index 2348a38..8be6d3c 100644
--- a/libiqxmlrpc/ssl_lib.cc
+++ b/libiqxmlrpc/ssl_lib.cc
@@ -260,9 +260,21 @@ Ctx::prepare_verify(SSL* ssl, bool server)
 }
 
 // ----------------------------------------------------------------------------
+namespace {
+
+// OpenSSL has no text for some errors
+std::string
+reason_string(unsigned long err)
+{
+  const char* reason = ERR_reason_error_string(err);
+  return reason ? reason : "unknown error";
+}
+
+} // anonymous namespace
+
 exception::exception() throw():
   ssl_err( ERR_get_error() ),
-  msg( ERR_reason_error_string(ssl_err) )
+  msg( reason_string(ssl_err) )
 {
   msg.insert(0, "SSL: ");
 }
@@ -270,7 +282,7 @@ exception::exception() throw():
 
 exception::exception( unsigned long err ) throw():
   ssl_err(err),
-  msg( ERR_reason_error_string(ssl_err) )
+  msg( reason_string(ssl_err) )
 {
   msg.insert(0, "SSL: ");
 }
-- 
2.43.0


From a54d8cfcb594a6d35fe2569fabb5a87fb1def7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:31 +0000
Subject: [PATCH 26/45] fix: clear the OpenSSL error queue before each TLS call

SSL_get_error() looks at the error queue of the thread. Errors left
there by one connection made a would-block result of the next one look
like a fatal TLS error, so one bad peer could break other connections.
---
 libiqxmlrpc/ssl_connection.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libiqxmlrpc/ssl_connection.cc b/libiqxmlrpc/ssl_connection.cc
index 8eb4624..7b1e0cc 100644
--- a/libiqxmlrpc/ssl_connection.cc
+++ b/libiqxmlrpc/ssl_connection.cc
@@ -44,6 +44,7 @@ void ssl::Connection::post_connect()
 void ssl::Connection::ssl_accept()
 {
   ssl_ctx->prepare_verify(ssl, true);
+  ERR_clear_error();
   int ret = SSL_accept( ssl );
 
   if( ret != 1 )
@@ -54,6 +55,7 @@ void ssl::Connection::ssl_accept()
 void ssl::Connection::ssl_connect()
 {
   ssl_ctx->prepare_verify(ssl, false);
+  ERR_clear_error();
   int ret = SSL_connect( ssl );
 
   if( ret != 1 )
@@ -66,6 +68,7 @@ void ssl::Connection::shutdown()
   if( shutdown_recved() && shutdown_sent() )
     return;
 
+  ERR_clear_error();
   int ret = SSL_shutdown( ssl );
   switch( ret )
   {
@@ -85,6 +88,7 @@ void ssl::Connection::shutdown()
 
 size_t ssl::Connection::send( const char* data, size_t len )
 {
+  ERR_clear_error();
   int ret = SSL_write( ssl, data, static_cast<int>(len) );
 
   if( static_cast<size_t>(ret) != len )
@@ -96,6 +100,7 @@ size_t ssl::Connection::send( const char* data, size_t len )
 
 size_t ssl::Connection::recv( char* buf, size_t len )
 {
+  ERR_clear_error();
   int ret = SSL_read( ssl, buf, static_cast<int>(len) );
 
   if( ret <= 0 )
-- 
2.43.0


From 9ba577bb50c37469c35e91b9137950a9992e5ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:31 +0000
Subject: [PATCH 27/45] fix: finish a TLS connection that is already shut down

If both sides had closed when a TLS call reported the close, the
connection was neither registered for an event nor finished, and was
never freed.
---
 libiqxmlrpc/ssl_connection.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libiqxmlrpc/ssl_connection.cc b/libiqxmlrpc/ssl_connection.cc
index 7b1e0cc..ca72557 100644
--- a/libiqxmlrpc/ssl_connection.cc
+++ b/libiqxmlrpc/ssl_connection.cc
@@ -205,7 +205,7 @@ void ssl::Reaction_connection::switch_state( bool& terminate )
   catch( const ssl::connection_close& )
   {
 //    std::cout << "connection_close " << e.is_clean() << std::endl;
-    reg_shutdown();
+    terminate = reg_shutdown();
   }
 }
 
-- 
2.43.0


From 46e97fde04b2511adbfd25956ffc90ce548a3e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:31 +0000
Subject: [PATCH 28/45] fix: check the results of creating TLS objects

A failing SSL_CTX_new() led to a NULL context being used, and a failing
SSL_set_fd() leaked the SSL object.
---
 libiqxmlrpc/ssl_connection.cc | 3 +++
 libiqxmlrpc/ssl_lib.cc        | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/libiqxmlrpc/ssl_connection.cc b/libiqxmlrpc/ssl_connection.cc
index ca72557..4266717 100644
--- a/libiqxmlrpc/ssl_connection.cc
+++ b/libiqxmlrpc/ssl_connection.cc
@@ -19,7 +19,10 @@ ssl::Connection::Connection( const Socket& s ):
     throw ssl::exception();
 
   if( !SSL_set_fd( ssl, static_cast<int>(sock.get_handler()) ) )
+  {
+    SSL_free( ssl );
     throw ssl::exception();
+  }
 }
 
 
diff --git a/libiqxmlrpc/ssl_lib.cc b/libiqxmlrpc/ssl_lib.cc
index 8be6d3c..c2e48c0 100644
--- a/libiqxmlrpc/ssl_lib.cc
+++ b/libiqxmlrpc/ssl_lib.cc
@@ -199,6 +199,10 @@ Ctx::Ctx( const std::string& cert_path, const std::string& key_path, bool client
 {
   boost::call_once(ssl_init, init_library);
   impl_->ctx = SSL_CTX_new( client ? SSLv23_method() : SSLv23_server_method() );
+
+  if( !impl_->ctx )
+    throw exception();
+
   set_common_options(impl_->ctx);
 
   if(
@@ -215,6 +219,10 @@ Ctx::Ctx():
 {
   boost::call_once(ssl_init, init_library);
   impl_->ctx = SSL_CTX_new( SSLv23_client_method() );
+
+  if( !impl_->ctx )
+    throw exception();
+
   set_common_options( impl_->ctx );
 }
 
-- 
2.43.0


From 0d5589e3aa6ccc63a0fa2538329be5e534e0d8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:31 +0000
Subject: [PATCH 29/45] fix: enforce a required client certificate without a
 verifier

SSL_VERIFY_FAIL_IF_NO_PEER_CERT is ignored by OpenSSL unless
SSL_VERIFY_PEER is set too, so verify_client(true, 0) required nothing.
---
 libiqxmlrpc/ssl_lib.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libiqxmlrpc/ssl_lib.cc b/libiqxmlrpc/ssl_lib.cc
index c2e48c0..77e58ce 100644
--- a/libiqxmlrpc/ssl_lib.cc
+++ b/libiqxmlrpc/ssl_lib.cc
@@ -257,7 +257,7 @@ Ctx::prepare_verify(SSL* ssl, bool server)
   int mode = v ? SSL_VERIFY_PEER : SSL_VERIFY_NONE;
 
   if (server && impl_->require_client_cert)
-    mode |= SSL_VERIFY_FAIL_IF_NO_PEER_CERT;
+    mode |= SSL_VERIFY_PEER | SSL_VERIFY_FAIL_IF_NO_PEER_CERT;
 
   if (v) {
     SSL_set_verify(ssl, mode, iqxmlrpc_SSL_verify);
-- 
2.43.0


From c6c7c399669f62715563902ff3443b21598cb680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:31 +0000
Subject: [PATCH 30/45] fix: print certificate fingerprints with two digits per
 byte

Bytes below 16 lost their leading zero, so the text did not match the
fingerprint shown by other tools and different digests could look the
same.
---
 libiqxmlrpc/ssl_lib.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/ssl_lib.cc b/libiqxmlrpc/ssl_lib.cc
index 77e58ce..b611084 100644
--- a/libiqxmlrpc/ssl_lib.cc
+++ b/libiqxmlrpc/ssl_lib.cc
@@ -20,6 +20,7 @@
 #include <pthread.h>
 #endif
 
+#include <iomanip>
 #include <sstream>
 #include "ssl_lib.h"
 #include "net_except.h"
@@ -170,8 +171,9 @@ ConnectionVerifier::cert_finger_sha256(X509_STORE_CTX* ctx) const
   X509_digest(x, digest, md, &n);
 
   std::ostringstream ss;
+  ss << std::hex << std::setfill('0');
   for(int i = 0; i < 32; i++)
-     ss << std::hex << int(md[i]);
+     ss << std::setw(2) << int(md[i]);
 
   return ss.str();
 }
-- 
2.43.0


From 6f0a3d04dacf1e58fc29f443462ea2d7917b9629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:31 +0000
Subject: [PATCH 31/45] fix: report a TLS connection closed by the server as a
 network error

When the server closed the connection before answering, the client shut
its side down and then found no handler to wait for, which was reported
as a timeout.
---
 libiqxmlrpc/https_client.cc | 7 +++++++
 libiqxmlrpc/https_client.h  | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/libiqxmlrpc/https_client.cc b/libiqxmlrpc/https_client.cc
index e7e860e..5476e7b 100644
--- a/libiqxmlrpc/https_client.cc
+++ b/libiqxmlrpc/https_client.cc
@@ -150,6 +150,13 @@ http::Packet* Https_client_connection::do_process_session( const std::string& s
 }
 
 
+void Https_client_connection::finish()
+{
+  if( !resp_packet )
+    throw iqnet::network_error( "Connection closed by peer.", false );
+}
+
+
 void Https_client_connection::connect_succeed()
 {
   established = true;
diff --git a/libiqxmlrpc/https_client.h b/libiqxmlrpc/https_client.h
index 2295bf2..af39a56 100644
--- a/libiqxmlrpc/https_client.h
+++ b/libiqxmlrpc/https_client.h
@@ -59,6 +59,8 @@ public:
     iqnet::ssl::Reaction_connection::post_connect();
   }
 
+  void finish();
+
   void connect_succeed();
   void send_succeed( bool& );
   void recv_succeed( bool&, size_t req_len, size_t real_len  );
-- 
2.43.0


From 36b59436299f7833659aa6de025acee65300f5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:03:37 +0000
Subject: [PATCH 32/45] fix: make HTTPS through a proxy work

The tunnelled connection was used without options, which dereferenced an
uninitialised pointer. It also shared its socket with the connection to
the proxy, so the socket was closed twice, and a persistent connection
asked for the tunnel again inside the tunnel.
---
 libiqxmlrpc/https_client.cc | 20 ++++++++++++++++----
 libiqxmlrpc/https_client.h  |  4 ++++
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/libiqxmlrpc/https_client.cc b/libiqxmlrpc/https_client.cc
index 5476e7b..fbd0ec4 100644
--- a/libiqxmlrpc/https_client.cc
+++ b/libiqxmlrpc/https_client.cc
@@ -51,14 +51,26 @@ Https_proxy_client_connection::Https_proxy_client_connection(
   sock.set_non_blocking( nb );
 }
 
+Https_proxy_client_connection::~Https_proxy_client_connection()
+{
+}
+
 http::Packet* Https_proxy_client_connection::do_process_session( const std::string& s )
 {
-  setup_tunnel();
+  if( !https_conn )
+  {
+    setup_tunnel();
+
+    // from now on the socket belongs to the tunnelled connection
+    Socket tunnel( sock );
+    sock = Socket( -1, tunnel.get_peer_addr() );
 
-  Https_client_connection https_conn(sock, non_blocking);
-  https_conn.post_connect();
+    https_conn.reset( new Https_client_connection(tunnel, non_blocking) );
+    https_conn->post_connect();
+  }
 
-  return https_conn.do_process_session(s);
+  https_conn->set_options( opts() );
+  return https_conn->do_process_session(s);
 }
 
 void Https_proxy_client_connection::setup_tunnel()
diff --git a/libiqxmlrpc/https_client.h b/libiqxmlrpc/https_client.h
index af39a56..95f3a6d 100644
--- a/libiqxmlrpc/https_client.h
+++ b/libiqxmlrpc/https_client.h
@@ -15,6 +15,8 @@
 namespace iqxmlrpc
 {
 
+class Https_client_connection;
+
 //! XML-RPC \b HTTPS PROXY client connection.
 //! DO NOT USE IT IN YOUR CODE.
 class LIBIQXMLRPC_API Https_proxy_client_connection:
@@ -23,6 +25,7 @@ class LIBIQXMLRPC_API Https_proxy_client_connection:
 {
 public:
   Https_proxy_client_connection( const iqnet::Socket&, bool non_block_flag );
+  ~Https_proxy_client_connection();
 
   void handle_input( bool& );
   void handle_output( bool& );
@@ -36,6 +39,7 @@ protected:
   boost::scoped_ptr<http::Packet> resp_packet;
   bool non_blocking;
   std::string out_str;
+  boost::scoped_ptr<Https_client_connection> https_conn;
 };
 
 //! XML-RPC \b HTTPS client's connection.
-- 
2.43.0


From cdd59ed9e2e069a6c96831e87dc8e5b5251b1887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:04:03 +0000
Subject: [PATCH 33/45] fix: read a proxy's reply once per event

If the reply filled the buffer and the rest had not arrived yet, the
second read failed and so did the call.
---
 libiqxmlrpc/https_client.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/libiqxmlrpc/https_client.cc b/libiqxmlrpc/https_client.cc
index fbd0ec4..00390ef 100644
--- a/libiqxmlrpc/https_client.cc
+++ b/libiqxmlrpc/https_client.cc
@@ -108,13 +108,12 @@ void Https_proxy_client_connection::handle_output( bool& )
 
 void Https_proxy_client_connection::handle_input( bool& )
 {
-  for( size_t sz = read_buf_sz(); (sz == read_buf_sz()) && !resp_packet ; )
-  {
-    if( !(sz = recv( read_buf(), read_buf_sz() )) )
-      throw iqnet::network_error( "Connection closed by peer.", false );
+  size_t sz = recv( read_buf(), read_buf_sz() );
 
-    resp_packet.reset( read_response(std::string(read_buf(), sz), true) );
-  }
+  if( !sz )
+    throw iqnet::network_error( "Connection closed by peer.", false );
+
+  resp_packet.reset( read_response(std::string(read_buf(), sz), true) );
 
   if( resp_packet )
   {
-- 
2.43.0


From 3f4a374cbd5cedc8058139914194f3a457443d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:04:03 +0000
Subject: [PATCH 34/45] fix: close the sockets of the wake-up connection

Every server leaked two descriptors: the socket used to set up the
wake-up connection and the sending end of that connection.
---
 libiqxmlrpc/reactor_interrupter.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/reactor_interrupter.cc b/libiqxmlrpc/reactor_interrupter.cc
index 7dcaee8..2045008 100644
--- a/libiqxmlrpc/reactor_interrupter.cc
+++ b/libiqxmlrpc/reactor_interrupter.cc
@@ -42,7 +42,7 @@ private:
 class Reactor_interrupter::Impl: boost::noncopyable {
 public:
   Impl(Reactor_base* reactor);
-  ~Impl() {}
+  ~Impl() { client_.close(); }
 
   void make_interrupt();
 
@@ -62,6 +62,7 @@ Reactor_interrupter::Impl::Impl(Reactor_base* reactor)
   Inet_addr srv_addr(srv.get_addr());
   client_.connect( Inet_addr("127.0.0.1", srv_addr.get_port()) );
   Socket srv_conn(srv.accept());
+  srv.close();
 
   server_.reset(new Interrupter_connection(reactor, srv_conn));
 }
-- 
2.43.0


From 085c3557166d9799512ca68f32d9f2d8051813c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:21:10 +0000
Subject: [PATCH 35/45] fix: avoid lock order inversion when the thread pool is
 destroyed

---
 libiqxmlrpc/executor.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libiqxmlrpc/executor.cc b/libiqxmlrpc/executor.cc
index 8a218b1..1f5869a 100644
--- a/libiqxmlrpc/executor.cc
+++ b/libiqxmlrpc/executor.cc
@@ -170,10 +170,13 @@ void Pool_executor_factory::register_executor( Pool_executor* executor )
 
 void Pool_executor_factory::destruction_started()
 {
-  scoped_lock lk(destructor_lock);
-  in_destructor = true;
+  {
+    scoped_lock lk(destructor_lock);
+    in_destructor = true;
+  }
 
-  scoped_lock lk_(req_queue_lock);
+  // pool threads take destructor_lock while they hold this one
+  scoped_lock lk(req_queue_lock);
   req_queue_cond.notify_all();
 }
 
-- 
2.43.0


From 2b509038445fa3d52f0b9a8ff2266b5b5767f24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:21:10 +0000
Subject: [PATCH 36/45] fix: do not miss the shutdown of the thread pool while
 a worker is busy

---
 libiqxmlrpc/executor.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libiqxmlrpc/executor.cc b/libiqxmlrpc/executor.cc
index 1f5869a..abcac08 100644
--- a/libiqxmlrpc/executor.cc
+++ b/libiqxmlrpc/executor.cc
@@ -99,6 +99,10 @@ void Pool_executor_factory::Pool_thread::operator ()()
 
     if (pool->req_queue.empty())
     {
+      // it could have been started while this thread was not waiting
+      if (pool->is_being_destructed())
+        return;
+
       pool->req_queue_cond.wait(lk);
 
       if (pool->is_being_destructed())
-- 
2.43.0


From 189870d503dabbcdad181de9462018ed5fdf6b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:21:10 +0000
Subject: [PATCH 37/45] fix: report the same fault codes from pool threads as
 from serial execution

---
 libiqxmlrpc/executor.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libiqxmlrpc/executor.cc b/libiqxmlrpc/executor.cc
index abcac08..babe099 100644
--- a/libiqxmlrpc/executor.cc
+++ b/libiqxmlrpc/executor.cc
@@ -226,13 +226,17 @@ void Pool_executor::process_actual_execution()
   {
     schedule_response( Response( f.code(), f.what() ) );
   }
+  catch( const Exception& e )
+  {
+    schedule_response( Response( e.code(), e.what() ) );
+  }
   catch( const std::exception& e )
   {
-    schedule_response( Response( -1, e.what() ) );
+    schedule_response( Response( -32500 /*application error*/, e.what() ) );
   }
   catch( ... )
   {
-    schedule_response( Response( -1, "Unknown Error" ) );
+    schedule_response( Response( -32500 /*application error*/, "Unknown Error" ) );
   }
 }
 
-- 
2.43.0


From 9ffe4a3a923cc55ccd8ebb5785b711fa511779f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:21:10 +0000
Subject: [PATCH 38/45] fix: guard the handler table in Reactor::handle_events

---
 libiqxmlrpc/reactor_impl.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libiqxmlrpc/reactor_impl.h b/libiqxmlrpc/reactor_impl.h
index ecd2455..65da80a 100644
--- a/libiqxmlrpc/reactor_impl.h
+++ b/libiqxmlrpc/reactor_impl.h
@@ -284,12 +284,16 @@ bool Reactor<Lock>::handle_system_events(Reactor_base::Timeout ms)
 template <class Lock>
 bool Reactor<Lock>::handle_events(Reactor_base::Timeout ms)
 {
+  scoped_lock lk(lock);
+
   if (handlers.empty())
     return false;
 
   if (handlers.size() - num_stoppers <= 0)
     throw No_handlers();
 
+  lk.unlock();
+
   handle_user_events();
   return handle_system_events(ms);
 }
-- 
2.43.0


From d34e8b469f2b22dad4012f6ad984dcb495addcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:21:10 +0000
Subject: [PATCH 39/45] fix: make the exit flag of the server atomic

---
 libiqxmlrpc/server.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/server.cc b/libiqxmlrpc/server.cc
index 06ac857..0334876 100644
--- a/libiqxmlrpc/server.cc
+++ b/libiqxmlrpc/server.cc
@@ -1,6 +1,7 @@
 //  Libiqxmlrpc - an object-oriented XML-RPC solution.
 //  Copyright (C) 2011 Anton Dedov
 
+#include <boost/atomic.hpp>
 #include <boost/optional.hpp>
 #include <boost/scoped_ptr.hpp>
 #include <memory>
@@ -29,7 +30,7 @@ public:
   std::auto_ptr<iqnet::Acceptor>              acceptor;
   iqnet::Firewall_base* firewall;
 
-  bool exit_flag;
+  boost::atomic<bool> exit_flag; // set by other threads
   std::ostream* log;
   size_t max_req_sz;
   http::Verification_level ver_level;
-- 
2.43.0


From f4f1c881fe4aa9e99974d822f490f0e3dca27fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:09:01 +0000
Subject: [PATCH 40/45] fix: check the nesting of XML-RPC elements, not only
 their order

The readers of requests, responses and values followed the order of the
opening tags only. An element behind a complete value, a parameter inside
a method name, a value behind the data of an array or a value inside a
member name were accepted, and text behind a typed value replaced it.
---
 libiqxmlrpc/parser2.cc         | 12 +++++++++++-
 libiqxmlrpc/parser2.h          | 11 +++++++++--
 libiqxmlrpc/request_parser.cc  | 19 ++++++++++++++++++-
 libiqxmlrpc/request_parser.h   |  3 +++
 libiqxmlrpc/response_parser.cc | 13 ++++++++++++-
 libiqxmlrpc/value_parser.cc    | 34 ++++++++++++++++++++--------------
 6 files changed, 73 insertions(+), 19 deletions(-)

diff --git a/libiqxmlrpc/parser2.cc b/libiqxmlrpc/parser2.cc
index 859e97f..6465c58 100644
--- a/libiqxmlrpc/parser2.cc
+++ b/libiqxmlrpc/parser2.cc
@@ -44,6 +44,7 @@ LibxmlInitializer libxml_init;
 BuilderBase::BuilderBase(Parser& p, bool t):
   parser_(p),
   depth_(0),
+  flat_(false),
   expect_text_(t),
   want_exit_(false)
 {
@@ -52,6 +53,7 @@ BuilderBase::BuilderBase(Parser& p, bool t):
 void
 BuilderBase::build(bool flat)
 {
+  flat_ = flat;
   depth_ += flat ? 1 : 0;
   parser_.parse(*this);
 }
@@ -69,10 +71,18 @@ BuilderBase::visit_element_end(const std::string& tag)
   depth_--;
   do_visit_element_end(tag);
 
-  if (!depth_)
+  // the builder of a whole document reads it up to the very end
+  if (flat_ && !depth_)
     want_exit();
 }
 
+void
+BuilderBase::check_depth(int expected) const
+{
+  if (depth_ != expected)
+    throw XML_RPC_violation(parser_.context());
+}
+
 void
 BuilderBase::visit_text(const std::string& text)
 {
diff --git a/libiqxmlrpc/parser2.h b/libiqxmlrpc/parser2.h
index 8974274..4f0f40d 100644
--- a/libiqxmlrpc/parser2.h
+++ b/libiqxmlrpc/parser2.h
@@ -48,15 +48,21 @@ public:
   build(bool flat = false);
 
 protected:
+  //! Builds the content of the element just begun, up to and including its end.
   template <class R, class BUILDER>
   R
-  sub_build(bool flat = false)
+  sub_build()
   {
     BUILDER b(parser_);
-    b.build(flat);
+    b.build(true);
+    depth_--;
     return b.result();
   }
 
+  //! Throws unless the element just begun is nested at given level.
+  void
+  check_depth(int expected) const;
+
   void
   want_exit()
   {
@@ -74,6 +80,7 @@ protected:
 
   Parser& parser_;
   int depth_;
+  bool flat_;
   bool expect_text_;
   bool want_exit_;
 };
diff --git a/libiqxmlrpc/request_parser.cc b/libiqxmlrpc/request_parser.cc
index 4968b9d..4662ce9 100644
--- a/libiqxmlrpc/request_parser.cc
+++ b/libiqxmlrpc/request_parser.cc
@@ -39,15 +39,32 @@ RequestBuilder::do_visit_element(const std::string& tagname)
 {
   switch (state_.change(tagname)) {
   case METHOD_NAME:
+    check_depth(2);
     method_name_ = parser_.get_data();
     break;
 
+  case PARAMS:
+    check_depth(2);
+    break;
+
+  case PARAM:
+    check_depth(3);
+    break;
+
   case VALUE:
-    params_.push_back(sub_build<Value_type*, ValueBuilder>(true));
+    check_depth(4);
+    params_.push_back(sub_build<Value_type*, ValueBuilder>());
     break;
   }
 }
 
+void
+RequestBuilder::do_visit_element_end(const std::string& tagname)
+{
+  if (tagname == "param" && state_.get_state() != VALUE)
+    throw XML_RPC_violation(parser_.context());
+}
+
 Request*
 RequestBuilder::get()
 {
diff --git a/libiqxmlrpc/request_parser.h b/libiqxmlrpc/request_parser.h
index b07f9bb..6b84ba9 100644
--- a/libiqxmlrpc/request_parser.h
+++ b/libiqxmlrpc/request_parser.h
@@ -21,6 +21,9 @@ private:
   virtual void
   do_visit_element(const std::string&);
 
+  virtual void
+  do_visit_element_end(const std::string&);
+
   StateMachine state_;
   boost::optional<std::string> method_name_;
   Param_list params_;
diff --git a/libiqxmlrpc/response_parser.cc b/libiqxmlrpc/response_parser.cc
index a2a963f..c18c9cc 100644
--- a/libiqxmlrpc/response_parser.cc
+++ b/libiqxmlrpc/response_parser.cc
@@ -38,11 +38,22 @@ void
 ResponseBuilder::do_visit_element(const std::string& tagname)
 {
   switch (state_.change(tagname)) {
+  case OK_RESPONSE:
+  case FAULT_RESPONSE:
+    check_depth(2);
+    break;
+
+  case OK_PARAM:
+    check_depth(3);
+    break;
+
   case OK_PARAM_VALUE:
+    check_depth(4);
     parse_ok();
     break;
 
   case FAULT_RESPONSE_VALUE:
+    check_depth(3);
     parse_fault();
     break;
   }
@@ -51,7 +62,7 @@ ResponseBuilder::do_visit_element(const std::string& tagname)
 void
 ResponseBuilder::parse_ok()
 {
-  ok_ = sub_build<Value_type*, ValueBuilder>(true);
+  ok_ = sub_build<Value_type*, ValueBuilder>();
 }
 
 void
diff --git a/libiqxmlrpc/value_parser.cc b/libiqxmlrpc/value_parser.cc
index 1f8d3b1..3687898 100644
--- a/libiqxmlrpc/value_parser.cc
+++ b/libiqxmlrpc/value_parser.cc
@@ -44,16 +44,17 @@ private:
   {
     switch (state_.change(tagname)) {
     case NAME_READ:
+      check_depth(3);
       name_ = parser_.get_data();
       break;
 
     case VALUE_READ:
+      check_depth(3);
       value_.reset(sub_build<Value_type*, ValueBuilder>());
-      if (!value_.get())
-        value_.reset(new String(""));
       break;
 
     case MEMBER:
+      check_depth(2);
       break;
 
     default:
@@ -109,9 +110,8 @@ private:
   do_visit_element(const std::string& tagname)
   {
     if (state_.change(tagname) == VALUES) {
-      Value_type* tmp = sub_build<Value_type*, ValueBuilder>();
-      tmp = tmp ? tmp : new String("");
-      Value_ptr v(new Value(tmp));
+      check_depth(3);
+      Value_ptr v(new Value(sub_build<Value_type*, ValueBuilder>()));
       proxy_->push_back(v);
     }
   }
@@ -133,7 +133,8 @@ enum ValueBuilderState {
   TIME,
   STRUCT,
   ARRAY,
-  NIL
+  NIL,
+  DONE
 };
 
 ValueBuilder::ValueBuilder(Parser& parser):
@@ -162,37 +163,39 @@ ValueBuilder::do_visit_element(const std::string& tagname)
 {
   switch (state_.change(tagname)) {
   case STRUCT:
-    retval.reset(sub_build<Value_type*, StructBuilder>(true));
+    retval.reset(sub_build<Value_type*, StructBuilder>());
+    state_.set_state(DONE);
     break;
 
   case ARRAY:
-    retval.reset(sub_build<Value_type*, ArrayBuilder>(true));
+    retval.reset(sub_build<Value_type*, ArrayBuilder>());
+    state_.set_state(DONE);
     break;
 
   case NIL:
     // wait for </nil> like for the end of any other scalar
     retval.reset(new Nil());
-    return;
+    break;
 
   default:
     // wait for text within <i4>...</i4>, etc...
     break;
   }
-
-  if (retval.get())
-    want_exit();
 }
 
 void
 ValueBuilder::do_visit_element_end(const std::string&)
 {
+  const int state = state_.get_state();
+  state_.set_state(DONE);
+
   if (retval.get())
     return;
 
   std::auto_ptr<Int> default_int(Value::get_default_int());
   std::auto_ptr<Int64> default_int64(Value::get_default_int64());
 
-  switch (state_.get_state()) {
+  switch (state) {
   case VALUE:
   case STRING:
     retval.reset(new String(""));
@@ -232,7 +235,10 @@ ValueBuilder::do_visit_text(const std::string& text)
 
   switch (state_.get_state()) {
   case VALUE:
-    want_exit();
+    retval.reset(new String(text));
+    state_.set_state(DONE);
+    break;
+
   case STRING:
     retval.reset(new String(text));
     break;
-- 
2.43.0


From 0f7488059331b492f0e58986152ea0b6246152fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:32:24 +0000
Subject: [PATCH 41/45] fix: let every client timeout bound the wait

A zero timeout made connecting wait forever although only negative values
mean infinity, and timeouts above 24 days overflowed when converted to
milliseconds.
---
 libiqxmlrpc/client_opts.h | 7 ++++++-
 libiqxmlrpc/connector.cc  | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/libiqxmlrpc/client_opts.h b/libiqxmlrpc/client_opts.h
index 6380dda..3fb2c83 100644
--- a/libiqxmlrpc/client_opts.h
+++ b/libiqxmlrpc/client_opts.h
@@ -4,6 +4,8 @@
 #ifndef _iqxmlrpc_client_opts_h_
 #define _iqxmlrpc_client_opts_h_
 
+#include <algorithm>
+#include <limits>
 #include <string>
 #include "inet_addr.h"
 #include "xheaders.h"
@@ -40,7 +42,10 @@ public:
 
   void set_timeout( int seconds )
   {
-    if( (timeout_ = seconds) > 0 )
+    // waits are counted in milliseconds
+    timeout_ = std::min( seconds, std::numeric_limits<int>::max() / 1000 );
+
+    if( timeout_ >= 0 )
       non_blocking_flag_ = true;
   }
 
diff --git a/libiqxmlrpc/connector.cc b/libiqxmlrpc/connector.cc
index c07c0b4..65545f3 100644
--- a/libiqxmlrpc/connector.cc
+++ b/libiqxmlrpc/connector.cc
@@ -62,7 +62,7 @@ Connector_base::connect(int timeout)
     if (!connector.connected)
       reactor.register_handler( &connector, Reactor_base::OUTPUT );
 
-    int ms = timeout > 0 ? timeout*1000 : -1;
+    int ms = timeout >= 0 ? timeout*1000 : -1;
 
     // The wait may also end because of a signal.
     while (!connector.connected) {
-- 
2.43.0


From d8e51ec3dec6c6a437ffa649138c91085303c55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:42:24 +0000
Subject: [PATCH 42/45] fix: do not sleep while an injected event is pending

An event injected by a handler that itself runs for an injected event was
left alone until poll() returned. With data buffered inside the TLS library
nothing else would wake the loop up.
---
 libiqxmlrpc/reactor_impl.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libiqxmlrpc/reactor_impl.h b/libiqxmlrpc/reactor_impl.h
index 65da80a..a50e1dd 100644
--- a/libiqxmlrpc/reactor_impl.h
+++ b/libiqxmlrpc/reactor_impl.h
@@ -260,16 +260,22 @@ bool Reactor<Lock>::handle_system_events(Reactor_base::Timeout ms)
   HandlerStateList tmp(handlers_states);
   lk.unlock();
 
+  // events may have been injected while handling the "user" ones,
+  // do not sleep before they are handled
+  bool pending = false;
+  for( hs_const_iterator i = tmp.begin(); i != tmp.end(); ++i )
+    pending = pending || (i->revents & i->mask);
+
   // if all events were of "user" type
   if (tmp.empty())
     return true;
 
   impl.reset(tmp);
   HandlerStateList ret;
-  bool succ = impl.poll(ret, ms);
+  bool succ = impl.poll(ret, pending ? 0 : ms);
 
   if (!succ)
-    return false;
+    return pending;
 
   while (!ret.empty())
   {
-- 
2.43.0


From 4b7f24999732283f67a0b1c231a9af53f1a1f811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:01:43 +0000
Subject: [PATCH 43/45] fix: give the TLS library's context back with the
 object that owns it

Every Ctx, also one whose certificate or key could not be used, leaked
its SSL_CTX. Connections hold references of their own.
---
 libiqxmlrpc/ssl_lib.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libiqxmlrpc/ssl_lib.cc b/libiqxmlrpc/ssl_lib.cc
index b611084..8fe5c80 100644
--- a/libiqxmlrpc/ssl_lib.cc
+++ b/libiqxmlrpc/ssl_lib.cc
@@ -189,11 +189,17 @@ struct Ctx::Impl {
   bool require_client_cert;
 
   Impl():
+    ctx(0),
     server_verifier(0),
     client_verifier(0),
     require_client_cert(false)
   {
   }
+
+  ~Impl()
+  {
+    SSL_CTX_free(ctx);
+  }
 };
 
 Ctx::Ctx( const std::string& cert_path, const std::string& key_path, bool client ):
-- 
2.43.0


From 99eb851f0102c1febce4ac39116e71521567569e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:02:06 +0000
Subject: [PATCH 44/45] fix: serialise writes to the error log

Methods executed by different threads of a pool may log at the same time,
which raced on the stream.
---
 libiqxmlrpc/server.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libiqxmlrpc/server.cc b/libiqxmlrpc/server.cc
index 0334876..4ea4860 100644
--- a/libiqxmlrpc/server.cc
+++ b/libiqxmlrpc/server.cc
@@ -4,6 +4,7 @@
 #include <boost/atomic.hpp>
 #include <boost/optional.hpp>
 #include <boost/scoped_ptr.hpp>
+#include <boost/thread/mutex.hpp>
 #include <memory>
 
 #include "server.h"
@@ -32,6 +33,7 @@ public:
 
   boost::atomic<bool> exit_flag; // set by other threads
   std::ostream* log;
+  boost::mutex log_lock;
   size_t max_req_sz;
   http::Verification_level ver_level;
 
@@ -143,6 +145,9 @@ void Server::set_auth_plugin( const Auth_Plugin_base& ap )
 
 void Server::log_err_msg( const std::string& msg )
 {
+  // methods can log from the threads of a pool
+  boost::mutex::scoped_lock lk(impl->log_lock);
+
   if( impl->log )
     *impl->log << msg << std::endl;
 }
-- 
2.43.0


From 70dbe0fc20cb1dd700cec450787b03cb87c4743e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:23:40 +0000
Subject: [PATCH 45/45] fix: close the socket of a server that cannot listen

When binding or listening failed the constructor of the acceptor threw
without closing the socket it had created, so every failed attempt to
start serving leaked a descriptor.
---
 libiqxmlrpc/acceptor.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/libiqxmlrpc/acceptor.cc b/libiqxmlrpc/acceptor.cc
index 4058f6b..6610950 100644
--- a/libiqxmlrpc/acceptor.cc
+++ b/libiqxmlrpc/acceptor.cc
@@ -17,9 +17,16 @@ Acceptor::Acceptor( const iqnet::Inet_addr& bind_addr, Accepted_conn_factory* fa
   reactor(reactor_),
   firewall(0)
 {
-  sock.bind( bind_addr );
-  listen();
-  reactor->register_handler( this, Reactor_base::INPUT );
+  try {
+    sock.bind( bind_addr );
+    listen();
+    reactor->register_handler( this, Reactor_base::INPUT );
+  }
+  catch( ... )
+  {
+    sock.close();
+    throw;
+  }
 }
 
 
-- 
2.43.0

