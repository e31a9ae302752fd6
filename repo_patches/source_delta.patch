From 22a788c38c244d9b68aeb544251dd48b30ff01fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:19 +0000
Subject: [PATCH 01/22] fix: drop swept entries from the expiring key list

check_and_expire removed the entry but left its key in expiring_keys, so
later sweeps failed with a KeyError for the missing key and the next
swap-removal next to it panicked.
---
 server/src/storage/hashmap_storage.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/server/src/storage/hashmap_storage.rs b/server/src/storage/hashmap_storage.rs
index 70a1375..becf2a2 100644
--- a/server/src/storage/hashmap_storage.rs
+++ b/server/src/storage/hashmap_storage.rs
@@ -256,9 +256,12 @@ impl Storage for HashMapStorage {
             None => return Err(ServerError::KeyError(format!("Key {} not found.", key))),
         };
         if item.element.is_expired() {
-            match self.storage.remove(key) {
-                _ => Ok(true),
+            let key_index = item.key_index;
+            self.storage.remove(key);
+            if let Some(index) = key_index {
+                self.invalidate_key_index(index);
             }
+            Ok(true)
         } else {
             Ok(false)
         }
-- 
2.43.0


From 8b6cc2ddf3eaf6e12d56edb1d5ec93beb55f14f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:19 +0000
Subject: [PATCH 02/22] fix: let set_if_not_exists replace an expired entry

An expired entry that has not been swept yet is absent for every other
operation, but blocked a conditional set.
---
 server/src/storage/hashmap_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/src/storage/hashmap_storage.rs b/server/src/storage/hashmap_storage.rs
index becf2a2..7dc8840 100644
--- a/server/src/storage/hashmap_storage.rs
+++ b/server/src/storage/hashmap_storage.rs
@@ -180,7 +180,7 @@ impl Storage for HashMapStorage {
     fn set_if_not_exists(
         &mut self, key: &str, value: StorageElement
     ) -> Result<bool, ServerError> {
-        if self.storage.contains_key(key) {
+        if self.contains_key(key)? {
             Ok(false)
         } else {
             match self.set(key, value) {
-- 
2.43.0


From ab408e1224dac64b0d0a1e17118c84eea1624c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:19 +0000
Subject: [PATCH 03/22] fix: do not panic on trailing whitespace in a query

Skipping whitespace ran past the end of the command when nothing followed
it, which panicked the thread handling the request.
---
 server/src/analysis/tokenizer.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/server/src/analysis/tokenizer.rs b/server/src/analysis/tokenizer.rs
index ea50b7e..a905bf9 100644
--- a/server/src/analysis/tokenizer.rs
+++ b/server/src/analysis/tokenizer.rs
@@ -57,9 +57,6 @@ impl Tokenizer {
 
     /// Retrieve the next token
     fn get_next_token(&mut self) -> Result<Token, ServerError> {
-        while self.view().is_whitespace() {
-            self.advance();
-        }
         self.token_start_index = self.current_index;
         let next_char = self.view();
         
@@ -96,6 +93,13 @@ impl Tokenizer {
         next_token
     }
 
+    /// Move past any whitespace at the current position
+    fn skip_whitespace(&mut self) {
+        while !self.is_at_end() && self.view().is_whitespace() {
+            self.advance();
+        }
+    }
+
     /// Check if we are at the end of the command
     fn is_at_end(&self) -> bool {
         self.current_index >= self.command.len()
@@ -236,6 +240,9 @@ impl Tokenizer {
 impl Iterator for Tokenizer {
     type Item = Result<AnnotatedToken, ServerError>;
     fn next(&mut self) -> Option<Self::Item> {
+        if !self.error_detected {
+            self.skip_whitespace();
+        }
         if self.is_at_end() | self.error_detected {
             return None
         }
-- 
2.43.0


From 1d49a4a0647f4780e38804265d56919cbd8d6111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:19 +0000
Subject: [PATCH 04/22] fix: accept a string literal at the very end of a query

The check of the character after the closing quote indexed past the end of
the command and panicked.
---
 server/src/analysis/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/src/analysis/tokenizer.rs b/server/src/analysis/tokenizer.rs
index a905bf9..35b5e40 100644
--- a/server/src/analysis/tokenizer.rs
+++ b/server/src/analysis/tokenizer.rs
@@ -195,7 +195,7 @@ impl Tokenizer {
                 char_vec.push(next_char);
             }
         }
-        if !is_valid_literal_end_char(self.view()) {
+        if !self.is_at_end() && !is_valid_literal_end_char(self.view()) {
             return Err(
                 ServerError::TokenizationError(
                     "Invalid character found at the end of a string.".to_string()
-- 
2.43.0


From c9ba580c9505f6ffa5649500e4d20499611008ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:19 +0000
Subject: [PATCH 05/22] fix: keep the letter case of string literals

The whole command was lower-cased before tokenizing, which also changed the
contents of string literals. Lower-case keywords and identifiers only.
---
 server/src/analysis/tokenizer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/src/analysis/tokenizer.rs b/server/src/analysis/tokenizer.rs
index 35b5e40..6a09357 100644
--- a/server/src/analysis/tokenizer.rs
+++ b/server/src/analysis/tokenizer.rs
@@ -31,7 +31,6 @@ pub struct Tokenizer {
 impl Tokenizer {
     /// Build a new tokenizer
     pub fn new(command: &str) -> Tokenizer {
-        let command = command.to_lowercase();
         let command = Vec::from_iter(command.chars());
         Tokenizer {
             command,
@@ -228,7 +227,8 @@ impl Tokenizer {
             }
 
         }
-        let token_string: String = char_vec.into_iter().collect();
+        // Keywords and identifiers are not case sensitive
+        let token_string = char_vec.into_iter().collect::<String>().to_lowercase();
         let token = match get_word_to_token_map().get(&token_string) {
             Some(keyword_token) => keyword_token.clone(),
             None => Token::Identifier(Box::new(token_string)),
-- 
2.43.0


From 63a8103529c531e58ca0695ee8977c39071faa9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:19 +0000
Subject: [PATCH 06/22] fix: reject float literals that overflow to infinity

Such a literal was stored as infinity, which has no JSON representation and
was returned as null.
---
 server/src/analysis/tokenizer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/src/analysis/tokenizer.rs b/server/src/analysis/tokenizer.rs
index 6a09357..18b82aa 100644
--- a/server/src/analysis/tokenizer.rs
+++ b/server/src/analysis/tokenizer.rs
@@ -134,9 +134,9 @@ impl Tokenizer {
         }
         let token_string: String = char_vec.into_iter().collect();
         if is_float {
-            let value: f32 = match token_string.parse() {
-                Ok(val) => val,
-                Err(_) => {
+            let value: f32 = match token_string.parse::<f32>() {
+                Ok(val) if val.is_finite() => val,
+                _ => {
                     return Err(
                         ServerError::TokenizationError(
                             format!("Expected float literal, got '{}'", token_string)
-- 
2.43.0


From dd19cece47e23cf1154a15c963ef4473fd3cba5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:19 +0000
Subject: [PATCH 07/22] fix: do not panic when a command's key is missing

A query ending right after a command keyword such as "get" indexed past the
last token.
---
 server/src/analysis/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/src/analysis/parser.rs b/server/src/analysis/parser.rs
index afb409a..e385c34 100644
--- a/server/src/analysis/parser.rs
+++ b/server/src/analysis/parser.rs
@@ -116,6 +116,9 @@ impl Parser {
     fn process_identifier_statement<F>(&mut self, f: F) -> Result<Statement, ServerError>
     where F: Fn(&String) -> Statement
     {
+        if self.is_at_end() {
+            return Err(ServerError::ParseError("Expected an identifier instead of the end of the query.".to_string()));
+        }
         let next_token = self.advance();
         
         match &next_token.token {
-- 
2.43.0


From 76de23b2dd3bef5d553fd0e994b01e2ced470fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:19 +0000
Subject: [PATCH 08/22] fix: do not panic on unfinished collection literals

A query ending inside a vector or map literal indexed past the last token.
---
 server/src/analysis/parser.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/server/src/analysis/parser.rs b/server/src/analysis/parser.rs
index e385c34..1c9c65c 100644
--- a/server/src/analysis/parser.rs
+++ b/server/src/analysis/parser.rs
@@ -436,6 +436,9 @@ impl Parser {
         let mut value = StorageVector::new(collection_type);
         // We've already checked that the first character is a left bracket
         self.advance(); // [
+        if self.is_at_end() {
+            return Err(ServerError::ParseError("Unfinished vector literal found.".to_string()));
+        }
         if let Token::RightBracket = self.view().token {
             return Ok(StorageValue::Vector(value));
         }
@@ -462,6 +465,9 @@ impl Parser {
         let mut value = StorageMap::new(key_type, collection_type);
         // We've already checked that the first character is a left bracket
         self.advance(); // [
+        if self.is_at_end() {
+            return Err(ServerError::ParseError("Unfinished map literal found.".to_string()));
+        }
         if let Token::RightCurlyBracket = self.view().token {
             return Ok(StorageValue::Map(value));
         }
@@ -479,6 +485,9 @@ impl Parser {
             if let Err(_) = value.set(element_key, element_value) {
                 return Err(ServerError::ParseError("Could not add element to map.".to_string()));
             }
+            if self.is_at_end() {
+                return Err(ServerError::ParseError("Unfinished map literal found.".to_string()));
+            }
             if let Token::RightCurlyBracket = self.view().token {
                 break;
             } else if let Token::Comma = self.view().token {
-- 
2.43.0


From 32be3f1cac66ed2f0dfcdc44476bfdd516e5273e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:19 +0000
Subject: [PATCH 09/22] fix: accept empty vector and map literals

The closing bracket was not consumed and was then rejected as a lifetime.
---
 server/src/analysis/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server/src/analysis/parser.rs b/server/src/analysis/parser.rs
index 1c9c65c..769b685 100644
--- a/server/src/analysis/parser.rs
+++ b/server/src/analysis/parser.rs
@@ -440,6 +440,7 @@ impl Parser {
             return Err(ServerError::ParseError("Unfinished vector literal found.".to_string()));
         }
         if let Token::RightBracket = self.view().token {
+            self.advance(); // ]
             return Ok(StorageValue::Vector(value));
         }
 
@@ -469,6 +470,7 @@ impl Parser {
             return Err(ServerError::ParseError("Unfinished map literal found.".to_string()));
         }
         if let Token::RightCurlyBracket = self.view().token {
+            self.advance(); // }
             return Ok(StorageValue::Map(value));
         }
 
-- 
2.43.0


From 75ac5526798ce763d64154841360afca9c5f49c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:19 +0000
Subject: [PATCH 10/22] fix: end the statement stream after its first error

error_encountered was never set, so iterating a parser past an error went
on to build statements from the middle of the broken one.
---
 server/src/analysis/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server/src/analysis/parser.rs b/server/src/analysis/parser.rs
index 769b685..7d7c393 100644
--- a/server/src/analysis/parser.rs
+++ b/server/src/analysis/parser.rs
@@ -514,7 +514,10 @@ impl Iterator for Parser {
         match self.get_next_statement() {
             Ok(None) => None,
             Ok(Some(statement)) => Some(Ok(statement)),
-            Err(err) => Some(Err(err)),
+            Err(err) => {
+                self.error_encountered = true;
+                Some(Err(err))
+            },
         }
     }
 }
-- 
2.43.0


From ed7a6e7525e174c3c9c0b5cca8bec52c552ca08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:19 +0000
Subject: [PATCH 11/22] fix: reject lifetimes too large to represent

Adding such a lifetime to the current time panicked the executor.
---
 server/src/analysis/interpreter.rs | 32 +++++++++++++++---------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/server/src/analysis/interpreter.rs b/server/src/analysis/interpreter.rs
index 3e22f20..039bbe5 100644
--- a/server/src/analysis/interpreter.rs
+++ b/server/src/analysis/interpreter.rs
@@ -225,10 +225,7 @@ impl<S: Storage + Send> Interpreter<S> {
     fn set(
         &mut self, key: &StorageKey, value: StorageValue, expiration: Option<u64>
     ) -> Result<InterpreterResponse, ServerError> {
-        let expiration = match expiration {
-            None => None,
-            Some(time) => Some(SystemTime::now() + Duration::from_secs(time)),
-        };
+        let expiration = get_expiration_time(expiration)?;
         let element = StorageElement{key: key.to_string(), value, expiration};
         self.storage.set(key, element)?;
         Ok(InterpreterResponse::Message("Ok".to_string()))
@@ -238,10 +235,7 @@ impl<S: Storage + Send> Interpreter<S> {
     fn set_if_not_exists(
         &mut self, key: &StorageKey, value: StorageValue, expiration: Option<u64>
     ) -> Result<InterpreterResponse, ServerError> {
-        let expiration = match expiration {
-            None => None,
-            Some(time) => Some(SystemTime::now() + Duration::from_secs(time)),
-        };
+        let expiration = get_expiration_time(expiration)?;
         let element = StorageElement{key: key.to_string(), value, expiration};
         let result = self.storage.set_if_not_exists(key, element)?;
         Ok(InterpreterResponse::Bool(result))
@@ -251,10 +245,7 @@ impl<S: Storage + Send> Interpreter<S> {
     fn update(
         &mut self, key: &StorageKey, value: StorageValue, expiration: Option<u64>
     ) -> Result<InterpreterResponse, ServerError> {
-        let expiration = match expiration {
-            None => None,
-            Some(time) => Some(SystemTime::now() + Duration::from_secs(time)),
-        };
+        let expiration = get_expiration_time(expiration)?;
         let element = StorageElement{key: key.to_string(), value, expiration};
         self.storage.update(key, element)?;
         Ok(InterpreterResponse::Message("Ok".to_string()))
@@ -264,10 +255,7 @@ impl<S: Storage + Send> Interpreter<S> {
     fn update_expiration(
         &mut self, key: &StorageKey, expiration: Option<u64>
     ) -> Result<InterpreterResponse, ServerError> {
-        let expiration = match expiration {
-            None => None,
-            Some(time) => Some(SystemTime::now() + Duration::from_secs(time)),
-        };
+        let expiration = get_expiration_time(expiration)?;
         self.storage.update_expiration(key, expiration)?;
         Ok(InterpreterResponse::Message("Ok".to_string()))
     }
@@ -406,6 +394,18 @@ impl<S: Storage + Send> Interpreter<S> {
 }
 
 
+/// Convert a lifetime in seconds to the time at which it ends.
+fn get_expiration_time(lifetime: Option<u64>) -> Result<Option<SystemTime>, ServerError> {
+    match lifetime {
+        None => Ok(None),
+        Some(time) => match SystemTime::now().checked_add(Duration::from_secs(time)) {
+            Some(expiration) => Ok(Some(expiration)),
+            None => Err(ServerError::ParseError(format!("Lifetime {} is too large.", time))),
+        },
+    }
+}
+
+
 /// Validate that a statement is available at the given authorization level.
 fn validate_authorization(
     statements: &Vec<Statement>, authorization: AuthorizationLevel
-- 
2.43.0


From e3181ba060f4abb9c4ab6dbde5786a7ba810af2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:19 +0000
Subject: [PATCH 12/22] fix: only stop the single threaded server for an
 executed shutdown

Any request containing a shutdown statement stopped the server, even when
it was refused for lack of privileges or failed before reaching it.
---
 server/src/single_threaded.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/server/src/single_threaded.rs b/server/src/single_threaded.rs
index 61a0f50..442d78e 100644
--- a/server/src/single_threaded.rs
+++ b/server/src/single_threaded.rs
@@ -3,7 +3,7 @@ use std::collections::HashMap;
 use crate::auth::{AuthenticationResult, AuthenticationService, MockAuthenticator};
 use crate::error::ServerError;
 use crate::io::stream::{StreamHandler, StreamRequest};
-use crate::analysis::{Interpreter, InterpreterRequest, InterpreterResponse, Parser, Statement, Tokenizer};
+use crate::analysis::{Interpreter, InterpreterRequest, InterpreterResponse, Parser, Tokenizer};
 use crate::storage::hashmap_storage::HashMapStorage;
 use crate::storage::Storage;
 
@@ -84,15 +84,9 @@ impl<Auth: AuthenticationService, Stor: Storage + Send> SingleThreadedServer<Aut
             return (Err(error), false)
         }
         let statements = statements.unwrap();
-        let mut shut_down = false;
-        for statement in statements.iter() {
-            if let Statement::Shutdown = statement {
-                shut_down = true;
-                break;
-            }
-        }
         let int_request = InterpreterRequest{statements, authorization};
         let result = self.interpreter.interpret(int_request);
+        let shut_down = matches!(result, Ok(InterpreterResponse::ShuttingDown));
         (result, shut_down)
     }
 }
-- 
2.43.0


From 8ef97692babfbd198463808e8a8e900fe2e864e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:10 +0000
Subject: [PATCH 13/22] fix: serialize non-empty maps

JSON only allows strings as object keys, so encoding a response holding a
non-empty map panicked in the thread sending it. Write element keys as
strings and read them back according to the map's key type.
---
 server/src/storage/types.rs | 41 +++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/server/src/storage/types.rs b/server/src/storage/types.rs
index 2196c63..ced6acf 100644
--- a/server/src/storage/types.rs
+++ b/server/src/storage/types.rs
@@ -240,6 +240,7 @@ impl StorageVector {
 
 /// A map object that can be saved in the key value store
 #[derive(Clone, Debug, Deserialize, Serialize)]
+#[serde(try_from = "SerializedMap", into = "SerializedMap")]
 pub struct StorageMap {
     /// The raw map to be accessed
     map: HashMap<StorageValue, StorageValue>,
@@ -327,6 +328,46 @@ impl StorageMap {
 }
 
 
+/// The serialized form of a StorageMap. Formats such as JSON only allow strings as keys.
+#[derive(Deserialize, Serialize)]
+struct SerializedMap {
+    map: HashMap<String, StorageValue>,
+    key_type: KeyType,
+    collection_type: CollectionType,
+}
+
+impl From<StorageMap> for SerializedMap {
+    fn from(value: StorageMap) -> SerializedMap {
+        let StorageMap{map, key_type, collection_type} = value;
+        let map = map.into_iter().map(|(key, value)| match key {
+            StorageValue::Int(key) => (key.to_string(), value),
+            StorageValue::String(key) => (key, value),
+            _ => unreachable!("Map keys are validated when they are set."),
+        }).collect();
+        SerializedMap{map, key_type, collection_type}
+    }
+}
+
+impl TryFrom<SerializedMap> for StorageMap {
+    type Error = ServerError;
+
+    fn try_from(value: SerializedMap) -> Result<StorageMap, ServerError> {
+        let mut map = StorageMap::new(value.key_type, value.collection_type);
+        for (key, element) in value.map {
+            let key = match value.key_type {
+                KeyType::String => StorageValue::String(key),
+                KeyType::Int => match key.parse() {
+                    Ok(key) => StorageValue::Int(key),
+                    Err(_) => return Err(ServerError::TypeError("Expected an integer key".to_string())),
+                },
+            };
+            map.set(key, element)?;
+        }
+        Ok(map)
+    }
+}
+
+
 /// A storage element includes the key, the value, and an optional expiration time
 #[derive(Clone, Debug)]
 pub struct StorageElement {
-- 
2.43.0


From 924ff004a793d499b7ae31d19786893cdb163af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:12 +0000
Subject: [PATCH 14/22] fix: read requests whose headers arrive in several
 pieces

A request was rejected unless its whole head arrived in the first read of
at most 1024 bytes. Keep reading while it is incomplete.
---
 server/src/io/tcp.rs       | 1 +
 server/src/io/tcp_async.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index 8696881..531af55 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -129,6 +129,7 @@ fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
         buffer.extend(&temp_buffer[..size_read]);
         let body_start = match request.parse(&buffer) {
             Ok(Status::Complete(size)) => size,
+            Ok(Status::Partial) if size_read > 0 => continue,
             _ => return StreamRequest {
                 request: Err(ServerError::NetworkError("Problem reading request.".to_string())),
                 headers,
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index 69c19bd..be8f9af 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -140,6 +140,7 @@ async fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
         buffer.extend(&temp_buffer[..size_read]);
         let body_start = match request.parse(&buffer) {
             Ok(Status::Complete(size)) => size,
+            Ok(Status::Partial) if size_read > 0 => continue,
             _ => return StreamRequest {
                 request: Err(ServerError::NetworkError("Problem reading request.".to_string())),
                 headers,
-- 
2.43.0


From 4c958e808b1313597b08a7252e3dcdfd8356c2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:14 +0000
Subject: [PATCH 15/22] fix: do not wait forever for the rest of an incomplete
 request

When the client closed the connection before the whole body had arrived,
or sent no body length at all, the read loop never ended and the server
stopped serving.
---
 server/src/io/tcp.rs       | 13 ++++++++++++-
 server/src/io/tcp_async.rs | 13 ++++++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index 531af55..0dc83bc 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -147,7 +147,11 @@ fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
             },
         };
         let body_length = match body_length {
-            None => continue,
+            None => return StreamRequest {
+                request: Err(ServerError::RequestError("Malformed request.".to_string())),
+                headers,
+                sender: Some(Box::new(TcpStreamSender{stream})),
+            },
             Some(body_length) => body_length,
         };
         if (body_start as u64 + body_length as u64) as usize <= buffer.len() {
@@ -164,6 +168,13 @@ fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
 
             break (headers, body);
         }
+        if size_read == 0 {
+            return StreamRequest {
+                request: Err(ServerError::NetworkError("Connection closed before the end of the request.".to_string())),
+                headers,
+                sender: Some(Box::new(TcpStreamSender{stream})),
+            };
+        }
     };
 
     let query = match extract_request_from_body(&body) {
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index be8f9af..6c8db70 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -158,7 +158,11 @@ async fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
             },
         };
         let body_length = match body_length {
-            None => continue,
+            None => return StreamRequest {
+                request: Err(ServerError::RequestError("Malformed request.".to_string())),
+                headers,
+                sender: Some(TcpStreamSender{stream}),
+            },
             Some(body_length) => body_length,
         };
         if (body_start as u64 + body_length as u64) as usize <= buffer.len() {
@@ -175,6 +179,13 @@ async fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
 
             break (headers, body);
         }
+        if size_read == 0 {
+            return StreamRequest {
+                request: Err(ServerError::NetworkError("Connection closed before the end of the request.".to_string())),
+                headers,
+                sender: Some(TcpStreamSender{stream}),
+            };
+        }
     };
 
     let query = match extract_request_from_body(&body) {
-- 
2.43.0


From 4e317a756a4d8a26f495752ae6185fe4af9ac7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:16 +0000
Subject: [PATCH 16/22] fix: do not overflow on absurd body lengths

A Content-Length close to the integer limit overflowed the computation of
the request's end and panicked the reader.
---
 server/src/io/tcp.rs       | 2 +-
 server/src/io/tcp_async.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index 0dc83bc..de08078 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -154,7 +154,7 @@ fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
             },
             Some(body_length) => body_length,
         };
-        if (body_start as u64 + body_length as u64) as usize <= buffer.len() {
+        if body_length <= buffer.len() - body_start {
             match request.method {
                 Some("POST") => (),
                 _ => return StreamRequest {
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index 6c8db70..cd5c126 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -165,7 +165,7 @@ async fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
             },
             Some(body_length) => body_length,
         };
-        if (body_start as u64 + body_length as u64) as usize <= buffer.len() {
+        if body_length <= buffer.len() - body_start {
             match request.method {
                 Some("POST") => (),
                 _ => return StreamRequest {
-- 
2.43.0


From df57e8794750a9f4602e4d772cd9fdc24bbd7f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:18 +0000
Subject: [PATCH 17/22] fix: recognise the Content-Length header in any letter
 case

HTTP header names are not case sensitive and some clients send them in
lower case.
---
 server/src/io/tcp.rs       | 2 +-
 server/src/io/tcp_async.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index de08078..dd1d8f9 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -65,7 +65,7 @@ impl StreamSender for TcpStreamSender {
 fn extract_body_length_from_request(request: &Request) -> Result<Option<usize>, ServerError> {
     let mut length: Option<usize> = None;
     for header in request.headers.iter() {
-        if header.name == "Content-Length" {
+        if header.name.eq_ignore_ascii_case("Content-Length") {
             let length_str = match String::from_utf8(header.value.clone().to_vec()) {
                 Ok(utf_str) => utf_str,
                 Err(_) => return Err(ServerError::RequestError("Malformed request.".to_string())),
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index cd5c126..69ec450 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -76,7 +76,7 @@ impl TcpStreamSender {
 fn extract_body_length_from_request(request: &Request) -> Result<Option<usize>, ServerError> {
     let mut length: Option<usize> = None;
     for header in request.headers.iter() {
-        if header.name == "Content-Length" {
+        if header.name.eq_ignore_ascii_case("Content-Length") {
             let length_str = match String::from_utf8(header.value.clone().to_vec()) {
                 Ok(utf_str) => utf_str,
                 Err(_) => return Err(ServerError::RequestError("Malformed request.".to_string())),
-- 
2.43.0


From 9f245d0edf891db4145b38e4994d4b9838b45e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:20 +0000
Subject: [PATCH 18/22] fix: write the whole response

A single write may be partial when the response is larger than the socket's
buffer, which truncated large responses.
---
 server/src/io/tcp.rs       | 2 +-
 server/src/io/tcp_async.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index dd1d8f9..2e08c4a 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -50,7 +50,7 @@ impl StreamSender for TcpStreamSender {
         let http_response = make_response(&code, &json_payload);
         let http_bytes = http_response.as_bytes();
 
-        if let Err(_) = self.stream.write(http_bytes) {
+        if let Err(_) = self.stream.write_all(http_bytes) {
             return Err(ServerError::NetworkError("Error writing to stream.".to_string()));
         };
         if let Err(_) = self.stream.flush() {
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index 69ec450..0d80d5d 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -61,7 +61,7 @@ impl TcpStreamSender {
 
         let http_response = make_response(&code, &json_payload);
         let http_bytes = http_response.as_bytes();
-        if let Err(_) = self.stream.write(http_bytes).await {
+        if let Err(_) = self.stream.write_all(http_bytes).await {
             return Err(ServerError::NetworkError("Error writing to stream.".to_string()));
         };
         if let Err(_) = self.stream.flush().await {
-- 
2.43.0


From 96f654f377b895d52bb890f53a1b810c3a8d501b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:02 +0000
Subject: [PATCH 19/22] fix: do not panic on an empty map at the end of a query

---
 server/src/analysis/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/src/analysis/parser.rs b/server/src/analysis/parser.rs
index 7d7c393..3546bca 100644
--- a/server/src/analysis/parser.rs
+++ b/server/src/analysis/parser.rs
@@ -378,7 +378,7 @@ impl Parser {
             self.advance();
             let key_type = get_key_type(&type_token.token)?;
             let collection_type = get_collection_type(&next_token.token)?;
-            let map = if self.is_at_statement_end() | (self.view().token != Token::LeftCurlyBracket) {
+            let map = if self.is_at_statement_end() || (self.view().token != Token::LeftCurlyBracket) {
                 StorageValue::Map(StorageMap::new(key_type, collection_type))
             } else {
                 self.get_map_value(key_type, collection_type)?
-- 
2.43.0


From 96317519083a8c0c83cb18bf074bf2d21c5c79ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:40 +0000
Subject: [PATCH 20/22] fix: reject request bodies that are not valid UTF-8

---
 server/src/io/tcp.rs       | 9 ++++++++-
 server/src/io/tcp_async.rs | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index 2e08c4a..116ba73 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -164,7 +164,14 @@ fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
                 }
             }
             headers = convert_headers_to_map(&request);
-            let body = String::from_utf8_lossy(&buffer[body_start..(body_start + body_length)]);
+            let body = match String::from_utf8(buffer[body_start..(body_start + body_length)].to_vec()) {
+                Ok(body) => body,
+                Err(_) => return StreamRequest {
+                    request: Err(ServerError::RequestError("Malformed request.".to_string())),
+                    headers,
+                    sender: Some(Box::new(TcpStreamSender{stream})),
+                },
+            };
 
             break (headers, body);
         }
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index 0d80d5d..62446df 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -175,7 +175,14 @@ async fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
                 }
             }
             headers = convert_headers_to_map(&request);
-            let body = String::from_utf8_lossy(&buffer[body_start..(body_start + body_length)]);
+            let body = match String::from_utf8(buffer[body_start..(body_start + body_length)].to_vec()) {
+                Ok(body) => body,
+                Err(_) => return StreamRequest {
+                    request: Err(ServerError::RequestError("Malformed request.".to_string())),
+                    headers,
+                    sender: Some(TcpStreamSender{stream}),
+                },
+            };
 
             break (headers, body);
         }
-- 
2.43.0


From c65b6a45245478c9b85bcbe730555a57cccb7e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:54 +0000
Subject: [PATCH 21/22] fix: do not lose the rest of a response when bytes
 follow the request

A connection closed while it holds unread input is reset, which discards what
the client has not received yet of a long response.
---
 server/src/io/tcp.rs       | 23 +++++++++++++++++++++++
 server/src/io/tcp_async.rs | 16 ++++++++++++++++
 2 files changed, 39 insertions(+)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index 116ba73..2e00a4b 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -13,6 +13,7 @@ use crate::io::stream::{StreamHandler, StreamRequest, StreamSender};
 
 const MAX_BUFFER_SIZE: usize = 1024;
 const MAX_NUMBER_OF_HEADERS: usize = 32;
+const MAX_DISCARDED_READS: usize = 1024;
 
 
 /// Object to send responses back through a TCP stream object.
@@ -32,6 +33,27 @@ fn make_response(code: &str, json_payload: &str) -> String {
 }
 
 
+impl TcpStreamSender {
+    /// Read and forget what has arrived after the request.
+    ///
+    /// Closing a connection that holds unread input resets it, and the client would lose the part of
+    /// the response that is still on its way.
+    fn discard_unread_input(&mut self) {
+        let mut buffer = [0; MAX_BUFFER_SIZE];
+        if self.stream.set_nonblocking(true).is_err() {
+            return;
+        }
+        for _ in 0..MAX_DISCARDED_READS {
+            match self.stream.read(&mut buffer) {
+                Ok(size_read) if size_read > 0 => (),
+                _ => break,
+            }
+        }
+        let _ = self.stream.set_nonblocking(false);
+    }
+}
+
+
 impl StreamSender for TcpStreamSender {
     fn send(&mut self, response: Result<InterpreterResponse, ServerError>) -> Result<(), ServerError> {
         let (code, json_payload) = match response {
@@ -56,6 +78,7 @@ impl StreamSender for TcpStreamSender {
         if let Err(_) = self.stream.flush() {
             return Err(ServerError::NetworkError("Error flushing write buffer for stream.".to_string()));
         }
+        self.discard_unread_input();
         Ok(())
     } 
 }
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index 62446df..b23b9de 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -13,6 +13,7 @@ use crate::error::{self, ServerError};
 
 const MAX_BUFFER_SIZE: usize = 1024;
 const MAX_NUMBER_OF_HEADERS: usize = 32;
+const MAX_DISCARDED_READS: usize = 1024;
 
 
 /// Async version of the stream request
@@ -44,6 +45,20 @@ fn make_response(code: &str, json_payload: &str) -> String {
 
 
 impl TcpStreamSender {
+    /// Read and forget what has arrived after the request.
+    ///
+    /// Closing a connection that holds unread input resets it, and the client would lose the part of
+    /// the response that is still on its way.
+    fn discard_unread_input(&mut self) {
+        let mut buffer = [0; MAX_BUFFER_SIZE];
+        for _ in 0..MAX_DISCARDED_READS {
+            match self.stream.try_read(&mut buffer) {
+                Ok(size_read) if size_read > 0 => (),
+                _ => break,
+            }
+        }
+    }
+
     /// Send a response
     pub async fn send(&mut self, response: Result<InterpreterResponse, ServerError>) -> Result<(), ServerError> {
         let (code, json_payload) = match response {
@@ -67,6 +82,7 @@ impl TcpStreamSender {
         if let Err(_) = self.stream.flush().await {
             return Err(ServerError::NetworkError("Error flushing write buffer for stream.".to_string()));
         }
+        self.discard_unread_input();
         Ok(())
     } 
 }
-- 
2.43.0


From 88e279d060f7f981209c7368ac8593a5ff451b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:12 +0000
Subject: [PATCH 22/22] fix: report an absent key the same before and after it
 is swept

Vector and map statements on an expired key were answered with one message
while the entry was still held and with another once a sweep had removed it.
---
 server/src/storage/hashmap_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/src/storage/hashmap_storage.rs b/server/src/storage/hashmap_storage.rs
index 7dc8840..3fb2607 100644
--- a/server/src/storage/hashmap_storage.rs
+++ b/server/src/storage/hashmap_storage.rs
@@ -89,7 +89,7 @@ impl Storage for HashMapStorage {
         match self.storage.get_mut(key) {
             Some(value) if value.element.is_expired() => Err(make_key_error(key)),
             Some(value) =>Ok(&mut value.element),
-            None => Err(ServerError::KeyError(format!("No item with index {} found.", key))),
+            None => Err(make_key_error(key)),
         }
     }
 
-- 
2.43.0

