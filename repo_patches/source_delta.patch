From d1e9b519f5ccfa36529785d311c0457008781f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:41 +0000
Subject: [PATCH 01/23] fix: save the storage file atomically

Writing used to truncate the storage file before writing the new contents, so
that a crash or a write error in between destroyed all stored passwords.
---
 pfp/src/storage_io/file.rs | 68 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 67 insertions(+), 1 deletion(-)

diff --git a/pfp/src/storage_io/file.rs b/pfp/src/storage_io/file.rs
index 597c734..1f5b12c 100644
--- a/pfp/src/storage_io/file.rs
+++ b/pfp/src/storage_io/file.rs
@@ -8,6 +8,7 @@ use crate::error::Error;
 use crate::json::{const_serializable, Deserialize, Serialize};
 use std::collections::HashMap;
 use std::fs;
+use std::io::{self, Write};
 use std::path;
 
 const_serializable!(ApplicationName: String = "pfp");
@@ -82,6 +83,71 @@ impl super::StorageIO for FileIO {
         if let Some(parent) = parent {
             fs::create_dir_all(parent).map_err(|error| Error::CreateDirFailure { error })?;
         }
-        fs::write(&self.path, &contents).map_err(|error| Error::FileWriteFailure { error })
+        replace_file(&self.path, contents.as_bytes())
+            .map_err(|error| Error::FileWriteFailure { error })
+    }
+}
+
+/// Replaces file contents in such a way that the file will always contain either its old or its
+/// new contents, even if writing fails or is interrupted.
+fn replace_file(path: &path::Path, contents: &[u8]) -> io::Result<()> {
+    // Symbolic links should stay in place, replace the file they are pointing to.
+    let path = fs::canonicalize(path).unwrap_or_else(|_| path.to_path_buf());
+
+    let permissions = match fs::OpenOptions::new().write(true).open(&path) {
+        Ok(existing) => {
+            let metadata = existing.metadata()?;
+            if !metadata.is_file() {
+                return fs::write(&path, contents);
+            }
+            Some(metadata.permissions())
+        }
+        Err(error) if error.kind() == io::ErrorKind::NotFound => None,
+        Err(error) => return Err(error),
+    };
+
+    let (temp_path, mut temp_file) = create_temp_file(&path)?;
+    let result = temp_file
+        .write_all(contents)
+        .and_then(|_| match permissions {
+            Some(permissions) => temp_file.set_permissions(permissions),
+            None => Ok(()),
+        })
+        .and_then(|_| temp_file.sync_all());
+    drop(temp_file);
+
+    let result = result.and_then(|_| fs::rename(&temp_path, &path));
+    if result.is_err() {
+        let _ = fs::remove_file(&temp_path);
+        return result;
+    }
+
+    // Make sure that renaming the file reaches the disk, not all platforms support this.
+    if let Some(parent) = path.parent() {
+        let parent = if parent.as_os_str().is_empty() {
+            path::Path::new(".")
+        } else {
+            parent
+        };
+        let _ = fs::File::open(parent).and_then(|dir| dir.sync_all());
+    }
+    Ok(())
+}
+
+/// Creates a new file next to the given path.
+fn create_temp_file(path: &path::Path) -> io::Result<(path::PathBuf, fs::File)> {
+    let mut counter = 0u32;
+    loop {
+        let mut name = path.file_name().unwrap_or_default().to_os_string();
+        name.push(format!(".{}-{}.tmp", std::process::id(), counter));
+        let temp_path = path.with_file_name(name);
+        match fs::OpenOptions::new()
+            .write(true)
+            .create_new(true)
+            .open(&temp_path)
+        {
+            Err(error) if error.kind() == io::ErrorKind::AlreadyExists => counter += 1,
+            result => return result.map(|file| (temp_path, file)),
+        }
     }
 }
-- 
2.43.0


From 26308807d7d962437c7dca5c3cd4a1e3427b07c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:06 +0000
Subject: [PATCH 02/23] fix: revert changes that could not be saved

When saving failed, the changes reported as failed stayed in memory and were
written to disk along with the next successful change. A failed reset even
left data encrypted with two different keys behind.
---
 pfp/src/storage_io/file.rs | 20 ++++++++++++++++++++
 pfp/src/storage_io/mod.rs  |  3 ++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/pfp/src/storage_io/file.rs b/pfp/src/storage_io/file.rs
index 1f5b12c..e1dbb03 100644
--- a/pfp/src/storage_io/file.rs
+++ b/pfp/src/storage_io/file.rs
@@ -23,6 +23,9 @@ pub struct FileIO {
     application: ApplicationName,
     format: Format,
     data: HashMap<String, String>,
+    /// The data as it was last read from or written to disk
+    #[serde(skip)]
+    saved_data: HashMap<String, String>,
 }
 
 impl FileIO {
@@ -35,6 +38,7 @@ impl FileIO {
             application: ApplicationName,
             format: Format,
             data: HashMap::new(),
+            saved_data: HashMap::new(),
         }
     }
 
@@ -46,6 +50,7 @@ impl FileIO {
         let mut result = crate::json::from_str::<Self>(&contents)
             .map_err(|error| Error::InvalidJson { error })?;
         result.path = path.to_path_buf();
+        result.saved_data = result.data.clone();
         Ok(result)
     }
 }
@@ -76,6 +81,21 @@ impl super::StorageIO for FileIO {
     }
 
     fn flush(&mut self) -> Result<(), Error> {
+        let result = self.save();
+        if result.is_ok() {
+            self.saved_data = self.data.clone();
+        } else {
+            // The changes weren't saved and are going to be reported as failed, make sure they
+            // don't take effect when something else is saved.
+            self.data = self.saved_data.clone();
+        }
+        result
+    }
+}
+
+impl FileIO {
+    /// Writes the current data to disk.
+    fn save(&self) -> Result<(), Error> {
         let contents =
             crate::json::to_string(self).map_err(|error| Error::InvalidJson { error })?;
 
diff --git a/pfp/src/storage_io/mod.rs b/pfp/src/storage_io/mod.rs
index f566e8c..94a09bb 100644
--- a/pfp/src/storage_io/mod.rs
+++ b/pfp/src/storage_io/mod.rs
@@ -44,6 +44,7 @@ pub trait StorageIO {
     fn clear(&mut self);
     /// Iterates over keys contained in the data.
     fn keys(&self) -> Box<dyn Iterator<Item = &String> + '_>;
-    /// Saves the changes back to the storage file if necessary.
+    /// Saves the changes back to the storage file if necessary. If saving fails, the changes made
+    /// since the data was last loaded or saved are reverted.
     fn flush(&mut self) -> Result<(), Error>;
 }
-- 
2.43.0


From c09020e4b32de1c88201f3cba3bb9a4b71ff1e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:06 +0000
Subject: [PATCH 03/23] fix: do not panic on ciphertexts with a wrong nonce
 size

---
 pfp/src/crypto.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pfp/src/crypto.rs b/pfp/src/crypto.rs
index b28e5eb..3491612 100644
--- a/pfp/src/crypto.rs
+++ b/pfp/src/crypto.rs
@@ -127,6 +127,9 @@ pub fn decrypt_data(value: &str, encryption_key: &SecretVec<u8>) -> Result<Secre
         value.split_once('_').ok_or(Error::InvalidCiphertext)?;
     let nonce_data =
         base64::decode(nonce_base64).map_err(|error| Error::InvalidBase64 { error })?;
+    if nonce_data.len() != AES_NONCE_SIZE / 8 {
+        return Err(Error::InvalidCiphertext);
+    }
     let nonce = aes_gcm::Nonce::from_slice(&nonce_data);
     let ciphertext =
         base64::decode(ciphertext_base64).map_err(|error| Error::InvalidBase64 { error })?;
-- 
2.43.0


From d91bf5f14a1c96b697eb793d437a2de58894effd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:06 +0000
Subject: [PATCH 04/23] fix: do not underflow when decoding a recovery code for
 an empty password

---
 pfp/src/recovery_codes.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pfp/src/recovery_codes.rs b/pfp/src/recovery_codes.rs
index a518462..d011070 100644
--- a/pfp/src/recovery_codes.rs
+++ b/pfp/src/recovery_codes.rs
@@ -220,10 +220,7 @@ pub fn decode(code: &str, primary_password: &SecretString) -> Result<SecretStrin
     let decrypted = crypto::decrypt_data(&encrypted, &encryption_key)?;
     let decrypted_len = decrypted.expose_secret().len();
     let mut end_pos = decrypted_len;
-    while let Some(&byte) = decrypted.expose_secret().get(end_pos - 1) {
-        if byte != 0 {
-            break;
-        }
+    while end_pos > 0 && decrypted.expose_secret()[end_pos - 1] == 0 {
         end_pos -= 1;
     }
     let stripped = if end_pos == decrypted_len {
-- 
2.43.0


From c528868c7b235c34d935473208b1cfbe815c18b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:06 +0000
Subject: [PATCH 05/23] fix: do not overflow with recovery codes longer than
 256 lines

---
 pfp/src/recovery_codes.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pfp/src/recovery_codes.rs b/pfp/src/recovery_codes.rs
index d011070..be3c8c4 100644
--- a/pfp/src/recovery_codes.rs
+++ b/pfp/src/recovery_codes.rs
@@ -103,10 +103,10 @@ pub fn generate(
             let block_index = pos / BLOCK_SIZE;
             let final_block = block_index == blocks - 1;
             let virtual_byte = if final_block {
-                255 - block_index
+                255 - block_index as u8
             } else {
-                block_index
-            } as u8;
+                block_index as u8
+            };
             output.push(crypto::pearson_hash(
                 &output[output.len() - BLOCK_SIZE..],
                 virtual_byte,
@@ -248,7 +248,7 @@ fn validate(code: &str) -> Result<Vec<u8>, Error> {
             break;
         }
 
-        if chunk[BLOCK_SIZE] == crypto::pearson_hash(&chunk[..BLOCK_SIZE], (255 - i) as u8) {
+        if chunk[BLOCK_SIZE] == crypto::pearson_hash(&chunk[..BLOCK_SIZE], 255 - i as u8) {
             seen_last = true;
             extra_row = None;
         } else if chunk[BLOCK_SIZE] != crypto::pearson_hash(&chunk[..BLOCK_SIZE], i as u8) {
-- 
2.43.0


From a082bee7dc237b4eb6d561f6058fff84362b1a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:43 +0000
Subject: [PATCH 06/23] fix: list should not fail for aliases to sites without
 passwords

Listing passwords tries to remove sites without passwords. If an alias points
to a site that doesn't have an entry, removing that entry failed.
---
 cli/src/processor/list.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cli/src/processor/list.rs b/cli/src/processor/list.rs
index 3432f46..329bf56 100644
--- a/cli/src/processor/list.rs
+++ b/cli/src/processor/list.rs
@@ -30,6 +30,10 @@ pub fn processor<IO: storage_io::StorageIO>(
         let mut empty_sites = Vec::new();
 
         let mut sites = passwords.list_sites(domain).collect::<Vec<Site>>();
+        let existing_sites = sites
+            .iter()
+            .map(|site| site.name().to_owned())
+            .collect::<std::collections::HashSet<String>>();
         let mut additions = Vec::new();
         for site in sites.iter() {
             if let Some(alias) = site.alias() {
@@ -59,7 +63,8 @@ pub fn processor<IO: storage_io::StorageIO>(
         for site in sites {
             let mut list = passwords.list(site.name(), name).collect::<Vec<Password>>();
             if list.is_empty() {
-                if name == "*" {
+                // Alias targets don't necessarily have a site entry of their own
+                if name == "*" && existing_sites.contains(site.name()) {
                     empty_sites.push(site.name().to_string());
                 }
                 continue;
-- 
2.43.0


From fca3564b8b3c955623afea0987d4b129789f0118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:10 +0000
Subject: [PATCH 07/23] fix: keep existing aliases working when their target
 becomes an alias

Passwords added via an alias pointing to another alias could not be retrieved
via the alias target and were hidden from the password list.
---
 pfp/src/passwords.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pfp/src/passwords.rs b/pfp/src/passwords.rs
index dd5bc60..daedb18 100644
--- a/pfp/src/passwords.rs
+++ b/pfp/src/passwords.rs
@@ -181,6 +181,17 @@ impl<IO: storage_io::StorageIO> Passwords<IO> {
 
         self.storage
             .set_alias(&site_normalized, &alias_resolved, hmac_secret, key)?;
+
+        // Only one alias level is resolved, so aliases for this site have to be updated as well.
+        let aliased_sites = self
+            .storage
+            .list_sites(key)
+            .filter(|other| other.alias() == Some(site_normalized.as_str()))
+            .collect::<Vec<Site>>();
+        for other in aliased_sites {
+            self.storage
+                .set_alias(other.name(), &alias_resolved, hmac_secret, key)?;
+        }
         self.storage.flush()
     }
 
-- 
2.43.0


From 0789b63f354878b36d3ffe6090f6ab1e2e7e1b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:13 +0000
Subject: [PATCH 08/23] fix: do not leave unsaved changes behind when removing
 sites fails

---
 pfp/src/passwords.rs | 11 ++++++++++-
 pfp/src/storage.rs   |  5 +++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/pfp/src/passwords.rs b/pfp/src/passwords.rs
index daedb18..a603aa8 100644
--- a/pfp/src/passwords.rs
+++ b/pfp/src/passwords.rs
@@ -221,8 +221,17 @@ impl<IO: storage_io::StorageIO> Passwords<IO> {
         }
 
         let hmac_secret = self.hmac_secret.as_ref().ok_or(Error::PasswordsLocked)?;
+        if sites
+            .iter()
+            .any(|site| !self.storage.has_site(site, hmac_secret))
+        {
+            // Don't leave the job half-done
+            return Err(Error::KeyMissing);
+        }
         for site in sites {
-            self.storage.remove_site(site, hmac_secret)?;
+            if self.storage.has_site(site, hmac_secret) {
+                self.storage.remove_site(site, hmac_secret)?;
+            }
         }
         self.storage.flush()
     }
diff --git a/pfp/src/storage.rs b/pfp/src/storage.rs
index d9f5f30..d8cc5e4 100644
--- a/pfp/src/storage.rs
+++ b/pfp/src/storage.rs
@@ -226,6 +226,11 @@ impl<IO: storage_io::StorageIO> Storage<IO> {
         }
     }
 
+    pub fn has_site(&self, site: &str, hmac_secret: &SecretVec<u8>) -> bool {
+        let key = self.get_site_key(site, hmac_secret);
+        self.contains(&key)
+    }
+
     pub fn remove_site(&mut self, site: &str, hmac_secret: &SecretVec<u8>) -> Result<(), Error> {
         let key = self.get_site_key(site, hmac_secret);
         self.remove(&key)
-- 
2.43.0


From ffe3991eb1e5d2a84656d13b1fd00e5cb4449b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:05 +0000
Subject: [PATCH 09/23] fix: ask before replacing a storage file that cannot be
 read

set-primary would silently overwrite corrupted files as well as files created
by newer application versions.
---
 cli/src/main.rs | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 7177bf9..d1e4f51 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -72,23 +72,21 @@ fn main_inner(args: Args) -> Result<(), String> {
     };
 
     let io = if let Commands::SetPrimary { assume_yes } = &args.command {
-        match FileIO::load(&storage_path) {
-            Ok(io) => {
-                if !assume_yes {
-                    let allow = question::Question::new(
-                        "Changing primary password will remove all existing data. Continue?",
-                    )
-                    .default(question::Answer::NO)
-                    .show_defaults()
-                    .confirm();
-                    if allow == question::Answer::NO {
-                        return Ok(());
-                    }
-                }
-                io
+        let existing = FileIO::load(&storage_path);
+        // Files that cannot be read might still contain valuable data, e.g. when created by a newer
+        // application version.
+        if !assume_yes && (existing.is_ok() || storage_path.exists()) {
+            let allow = question::Question::new(
+                "Changing primary password will remove all existing data. Continue?",
+            )
+            .default(question::Answer::NO)
+            .show_defaults()
+            .confirm();
+            if allow == question::Answer::NO {
+                return Ok(());
             }
-            Err(_) => FileIO::new(&storage_path),
         }
+        existing.unwrap_or_else(|_| FileIO::new(&storage_path))
     } else {
         FileIO::load(&storage_path).convert_error()?
     };
-- 
2.43.0


From e0eb7263bd9a5496d6c3b6b8c03c83d6092d0af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:09 +0000
Subject: [PATCH 10/23] fix: handle missing or invalid input when prompting for
 secrets

Reaching the end of input while asking for the primary password resulted in an
endless loop, while setting notes it removed the existing notes. Input that
isn't valid UTF-8 and a missing terminal caused a panic.
---
 cli/src/processor/add_stored.rs  |  2 +-
 cli/src/processor/notes.rs       |  2 +-
 cli/src/processor/set_primary.rs |  4 ++--
 cli/src/processor/utils.rs       | 27 ++++++++++++++++++---------
 4 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/cli/src/processor/add_stored.rs b/cli/src/processor/add_stored.rs
index ed94cc7..1d4bf12 100644
--- a/cli/src/processor/add_stored.rs
+++ b/cli/src/processor/add_stored.rs
@@ -40,7 +40,7 @@ pub fn processor<IO: storage_io::StorageIO>(
         let password = if *recovery {
             prompt_recovery_code(passwords)?
         } else {
-            prompt_password("Password to be stored: ", args.stdin_passwords)
+            prompt_password("Password to be stored: ", args.stdin_passwords)?
         };
         passwords
             .set_stored(domain, name, revision, password)
diff --git a/cli/src/processor/notes.rs b/cli/src/processor/notes.rs
index 82d6b62..55489fb 100644
--- a/cli/src/processor/notes.rs
+++ b/cli/src/processor/notes.rs
@@ -38,7 +38,7 @@ pub fn processor<IO: storage_io::StorageIO>(
         }
 
         if *set {
-            let notes = prompt_secret_text("Please enter new notes to be stored:");
+            let notes = prompt_secret_text("Please enter new notes to be stored:")?;
             let removing = notes.expose_secret().is_empty();
             passwords
                 .set_notes(domain, name, revision, notes)
diff --git a/cli/src/processor/set_primary.rs b/cli/src/processor/set_primary.rs
index db84443..f715b2c 100644
--- a/cli/src/processor/set_primary.rs
+++ b/cli/src/processor/set_primary.rs
@@ -15,12 +15,12 @@ pub fn processor<IO: storage_io::StorageIO>(
     storage_path: &std::path::Path,
     passwords: &mut Passwords<IO>,
 ) -> Result<(), String> {
-    let primary_password = prompt_password("New primary password: ", args.stdin_passwords);
+    let primary_password = prompt_password("New primary password: ", args.stdin_passwords)?;
     if primary_password.expose_secret().len() < 6 {
         return Err("Primary password length should be at least 6 characters.".to_owned());
     }
 
-    let primary_password2 = prompt_password("Repeat primary password: ", args.stdin_passwords);
+    let primary_password2 = prompt_password("Repeat primary password: ", args.stdin_passwords)?;
     if primary_password.expose_secret() != primary_password2.expose_secret() {
         return Err("Primary passwords don't match.".to_owned());
     }
diff --git a/cli/src/processor/utils.rs b/cli/src/processor/utils.rs
index e8bb9ba..aee35ec 100644
--- a/cli/src/processor/utils.rs
+++ b/cli/src/processor/utils.rs
@@ -68,7 +68,7 @@ impl<T> ConvertError<T> for Result<T, Error> {
     }
 }
 
-pub fn prompt_secret_text(prompt: &str) -> SecretString {
+pub fn prompt_secret_text(prompt: &str) -> Result<SecretString, String> {
     StreamWriter::stdout()
         .unwrap()
         .write_all(prompt.as_bytes())
@@ -76,29 +76,38 @@ pub fn prompt_secret_text(prompt: &str) -> SecretString {
 
     let mut byte_buffer = [0];
     let mut buffer = Vec::with_capacity(1024);
+    let mut line_complete = false;
     let mut stdin = StreamReader::stdin().unwrap();
     while let Ok(1) = stdin.read(&mut byte_buffer) {
         if byte_buffer[0] == b'\n' {
+            line_complete = true;
             break;
         }
         buffer.push(byte_buffer[0]);
     }
 
     let input = SecretVec::new(buffer);
-    SecretString::new(
+    if !line_complete && input.expose_secret().is_empty() {
+        // No input available, this isn't the same as an empty line.
+        return Err("Unexpected end of input.".to_owned());
+    }
+    Ok(SecretString::new(
         std::str::from_utf8(input.expose_secret().as_slice())
-            .unwrap()
+            .map_err(|_| "Input is not valid UTF-8 text.".to_owned())?
             .to_owned(),
-    )
+    ))
 }
 
-pub fn prompt_password(prompt: &str, stdin_passwords: bool) -> SecretString {
+pub fn prompt_password(prompt: &str, stdin_passwords: bool) -> Result<SecretString, String> {
     let secret = if stdin_passwords {
-        prompt_secret_text(prompt)
+        prompt_secret_text(prompt)?
     } else {
-        SecretString::new(rpassword::prompt_password(prompt).unwrap())
+        SecretString::new(
+            rpassword::prompt_password(prompt)
+                .map_err(|error| format!("Failed reading password ({}).", error))?,
+        )
     };
-    SecretString::new(secret.expose_secret().trim().to_owned())
+    Ok(SecretString::new(secret.expose_secret().trim().to_owned()))
 }
 
 pub fn ensure_unlocked_passwords<IO: storage_io::StorageIO>(
@@ -110,7 +119,7 @@ pub fn ensure_unlocked_passwords<IO: storage_io::StorageIO>(
     }
 
     while !passwords.unlocked() {
-        let primary_password = prompt_password("Your primary password: ", stdin_passwords);
+        let primary_password = prompt_password("Your primary password: ", stdin_passwords)?;
         if primary_password.expose_secret().len() < 6 {
             eprintln!("Primary password length should be at least 6 characters.");
         } else {
-- 
2.43.0


From 3230c832bb4d6c4486867860bf1eb3554da00e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:09 +0000
Subject: [PATCH 11/23] fix: start QR codes on their own line

The first row of the QR code was shifted to the right, producing a code that
could not be scanned.
---
 cli/src/processor/show.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cli/src/processor/show.rs b/cli/src/processor/show.rs
index 1670500..13db534 100644
--- a/cli/src/processor/show.rs
+++ b/cli/src/processor/show.rs
@@ -36,6 +36,8 @@ pub fn processor<IO: storage_io::StorageIO>(
                 qrcodegen::QrCodeEcc::Low,
             ) {
                 Ok(qr) => {
+                    // The QR code has to start on its own line, otherwise its first row is shifted.
+                    stdout.write_all(b"\n").unwrap();
                     for y in (0..qr.size()).step_by(2) {
                         for x in 0..qr.size() {
                             let index = if qr.get_module(x, y) { 1 } else { 0 }
-- 
2.43.0


From 5f24fc6745e1206116c7f4c70ea944b238a0d93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 12/23] fix: do not panic on passwords with zero length or
 without allowed characters

---
 pfp/src/crypto.rs    | 7 +++++--
 pfp/src/passwords.rs | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/pfp/src/crypto.rs b/pfp/src/crypto.rs
index 3491612..144378f 100644
--- a/pfp/src/crypto.rs
+++ b/pfp/src/crypto.rs
@@ -52,9 +52,12 @@ pub fn derive_password(
     salt: &str,
     length: usize,
     charset: CharacterSet,
-) -> SecretString {
+) -> Result<SecretString, Error> {
+    if length == 0 || charset.is_empty() {
+        return Err(Error::UnexpectedData);
+    }
     let bytes = derive_bits(primary_password, salt.as_bytes(), length);
-    to_password(bytes, charset)
+    Ok(to_password(bytes, charset))
 }
 
 fn to_password(bytes: SecretVec<u8>, charset: CharacterSet) -> SecretString {
diff --git a/pfp/src/passwords.rs b/pfp/src/passwords.rs
index a603aa8..d3786a2 100644
--- a/pfp/src/passwords.rs
+++ b/pfp/src/passwords.rs
@@ -345,12 +345,12 @@ impl<IO: storage_io::StorageIO> Passwords<IO> {
         )?;
 
         match password {
-            Password::Generated(password) => Ok(crypto::derive_password(
+            Password::Generated(password) => crypto::derive_password(
                 primary_password,
                 &password.salt(),
                 password.length(),
                 password.charset(),
-            )),
+            ),
             Password::Stored(password) => Ok(password.password().clone()),
         }
     }
-- 
2.43.0


From 33a605f17e10f1ef5e90dd3ab6ee94eb84425c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 13/23] fix: do not leave copies of secrets behind when
 serializing

Growing the output buffer released memory containing parts of the password
or notes without erasing it.
---
 pfp/src/json/mod.rs | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/pfp/src/json/mod.rs b/pfp/src/json/mod.rs
index f95c477..7becf08 100644
--- a/pfp/src/json/mod.rs
+++ b/pfp/src/json/mod.rs
@@ -7,7 +7,7 @@
 pub use serde::de::Deserialize as Deserializable;
 pub use serde::ser::Serialize as Serializable;
 pub use serde::*;
-pub use serde_json::{from_slice, from_str, json, to_string, to_vec, Error, Value};
+pub use serde_json::{from_slice, from_str, json, to_string, Error, Value};
 
 mod macros;
 
@@ -16,3 +16,32 @@ mod macros;
 pub use macros::*;
 
 pub mod secret_serialization;
+
+/// Serializes a value into a vector of bytes.
+///
+/// Unlike `serde_json::to_vec()` this makes sure that the vector isn't reallocated while being
+/// filled, this would leave copies of the (potentially secret) data behind in memory.
+pub fn to_vec<T>(value: &T) -> Result<Vec<u8>, Error>
+where
+    T: ?Sized + Serializable,
+{
+    struct Counter(usize);
+
+    impl std::io::Write for Counter {
+        fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
+            self.0 += buf.len();
+            Ok(buf.len())
+        }
+
+        fn flush(&mut self) -> std::io::Result<()> {
+            Ok(())
+        }
+    }
+
+    let mut counter = Counter(0);
+    serde_json::to_writer(&mut counter, value)?;
+
+    let mut result = Vec::with_capacity(counter.0);
+    serde_json::to_writer(&mut result, value)?;
+    Ok(result)
+}
-- 
2.43.0


From 87ace9b3c477e3a8839ea8363f77be1821e62712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:23 +0000
Subject: [PATCH 14/23] fix: Accept escaped field names in generated password
 records

---
 pfp/src/json/macros.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pfp/src/json/macros.rs b/pfp/src/json/macros.rs
index 5629c21..c403626 100644
--- a/pfp/src/json/macros.rs
+++ b/pfp/src/json/macros.rs
@@ -72,7 +72,8 @@ macro_rules! enumset_serialization {
                     let mut result = Self::Value::empty();
 
                     loop {
-                        match map.next_key::<&str>()? {
+                        // Keys containing escape sequences cannot be borrowed.
+                        match map.next_key::<String>()?.as_deref() {
                             None => break,
                             $(
                                 Some($key) => {
-- 
2.43.0


From 4333d201ba9f37d82b59e5966c50f371aa5a6d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:55 +0000
Subject: [PATCH 15/23] fix: list passwords of sites with a www. prefix in
 their name

The prefix was removed from the already normalized name, so that such sites
appeared to have no passwords and were removed from the list of sites.
---
 cli/src/processor/list.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cli/src/processor/list.rs b/cli/src/processor/list.rs
index 329bf56..9f8a1f0 100644
--- a/cli/src/processor/list.rs
+++ b/cli/src/processor/list.rs
@@ -61,7 +61,12 @@ pub fn processor<IO: storage_io::StorageIO>(
 
         let mut found = false;
         for site in sites {
-            let mut list = passwords.list(site.name(), name).collect::<Vec<Password>>();
+            // The library will remove www. prefix from site names, yet this name is already
+            // normalized. A remaining www. prefix is part of it.
+            let lookup_name = format!("www.{}", site.name());
+            let mut list = passwords
+                .list(&lookup_name, name)
+                .collect::<Vec<Password>>();
             if list.is_empty() {
                 // Alias targets don't necessarily have a site entry of their own
                 if name == "*" && existing_sites.contains(site.name()) {
@@ -101,7 +106,7 @@ pub fn processor<IO: storage_io::StorageIO>(
                         .unwrap()
                         .write_all(
                             passwords
-                                .get(site.name(), &name, &revision)
+                                .get(&lookup_name, &name, &revision)
                                 .convert_error()?
                                 .expose_secret()
                                 .as_bytes(),
-- 
2.43.0


From 6870d1f4c694c4f610e3be778281ffa93fb1513b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:14 +0000
Subject: [PATCH 16/23] fix: match wildcards correctly where text before the
 match is similar

wildmatch 2.1.0 does not go back to where the last * matched, so that for
example the filter *ss.com did not select sss.com.
---
 pfp/src/passwords.rs | 55 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 46 insertions(+), 9 deletions(-)

diff --git a/pfp/src/passwords.rs b/pfp/src/passwords.rs
index d3786a2..7fd2d92 100644
--- a/pfp/src/passwords.rs
+++ b/pfp/src/passwords.rs
@@ -29,6 +29,44 @@ pub fn get_encryption_key(primary_password: &SecretString, salt: &[u8]) -> Secre
     crypto::derive_key(primary_password, salt_str.as_bytes())
 }
 
+/// Checks whether the text matches the pattern, with `*` in the pattern standing for any text and
+/// `?` for exactly one character.
+fn matches_pattern(pattern: &str, text: &str) -> bool {
+    let pattern = pattern.chars().collect::<Vec<char>>();
+    let text = text.chars().collect::<Vec<char>>();
+
+    let mut pattern_pos = 0;
+    let mut text_pos = 0;
+    // Position after the last `*` and the text position where it ended
+    let mut backtrack = None;
+    while text_pos < text.len() {
+        match pattern.get(pattern_pos) {
+            Some('*') => {
+                pattern_pos += 1;
+                backtrack = Some((pattern_pos, text_pos));
+                continue;
+            }
+            Some(&chr) if chr == '?' || chr == text[text_pos] => {
+                pattern_pos += 1;
+                text_pos += 1;
+                continue;
+            }
+            _ => {}
+        }
+
+        // Mismatch, make the last `*` consume one more character.
+        match backtrack {
+            Some((after_star, star_end)) => {
+                pattern_pos = after_star;
+                text_pos = star_end + 1;
+                backtrack = Some((after_star, text_pos));
+            }
+            None => return false,
+        }
+    }
+    pattern[pattern_pos..].iter().all(|&chr| chr == '*')
+}
+
 /// The type providing access to the passwords storage, allowing to retrieve and manipulate its
 /// data.
 ///
@@ -439,25 +477,24 @@ impl<IO: storage_io::StorageIO> Passwords<IO> {
     }
 
     /// Iterates over the passwords for a given site (site aliases will be resolved). The `name`
-    /// parameter is a password name filter and can contain wildcards (see
-    /// [wildmatch crate](https://docs.rs/wildmatch/latest/wildmatch/)). Passing `"*"` for `name`
-    /// will list all passwords for the site.
+    /// parameter is a password name filter and can contain wildcards (`*` for any text, `?` for
+    /// exactly one character). Passing `"*"` for `name` will list all passwords for the site.
     pub fn list(&self, site: &str, name: &str) -> impl Iterator<Item = Password> + '_ {
         assert!(self.unlocked());
 
         let hmac_secret = self.hmac_secret.as_ref().unwrap();
         let key = self.key.as_ref().unwrap();
         let site_resolved = self.storage.resolve_site(site, hmac_secret, key);
-        let matcher = wildmatch::WildMatch::new(name);
+        let pattern = name.to_owned();
         self.storage
             .list_passwords(&site_resolved, hmac_secret, key)
             .filter(move |password| {
-                return matcher.matches(password.id().name());
+                return matches_pattern(&pattern, password.id().name());
             })
     }
 
     /// Iterates over existing site entries. The `site` parameter is a site name filter and can
-    /// contain wildcards (see [wildmatch crate](https://docs.rs/wildmatch/latest/wildmatch/)).
+    /// contain wildcards (`*` for any text, `?` for exactly one character).
     /// Passing `"*"` for `site` will list all known sites.
     ///
     /// This function will also return aliased sites, both if the site name matches the filter and
@@ -467,12 +504,12 @@ impl<IO: storage_io::StorageIO> Passwords<IO> {
 
         let key = self.key.as_ref().unwrap();
 
-        let matcher = wildmatch::WildMatch::new(site);
+        let pattern = site.to_owned();
         self.storage.list_sites(key).filter(move |site| {
             return match site.alias() {
-                Some(alias) => matcher.matches(alias),
+                Some(alias) => matches_pattern(&pattern, alias),
                 None => false,
-            } || matcher.matches(site.name());
+            } || matches_pattern(&pattern, site.name());
         })
     }
 }
-- 
2.43.0


From a4e598d82f3a798f15971ed77860fd3f3cb2f5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 17/23] fix: do not leave copies of long secrets behind when
 reading them

Growing the input buffer released memory containing the text read so far
without erasing it.
---
 cli/src/processor/utils.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cli/src/processor/utils.rs b/cli/src/processor/utils.rs
index aee35ec..f541033 100644
--- a/cli/src/processor/utils.rs
+++ b/cli/src/processor/utils.rs
@@ -83,6 +83,12 @@ pub fn prompt_secret_text(prompt: &str) -> Result<SecretString, String> {
             line_complete = true;
             break;
         }
+        if buffer.len() == buffer.capacity() {
+            // Letting the vector reallocate would leave a copy of the data behind in memory.
+            let mut larger = Vec::with_capacity(buffer.capacity() * 2);
+            larger.extend_from_slice(&buffer);
+            drop(SecretVec::new(std::mem::replace(&mut buffer, larger)));
+        }
         buffer.push(byte_buffer[0]);
     }
 
-- 
2.43.0


From 14ff4512cd9ea9084ab66b774ca9659871dbe131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:19 +0000
Subject: [PATCH 18/23] fix: create the target when saving through a dangling
 symbolic link

---
 pfp/src/storage_io/file.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pfp/src/storage_io/file.rs b/pfp/src/storage_io/file.rs
index e1dbb03..56e85bd 100644
--- a/pfp/src/storage_io/file.rs
+++ b/pfp/src/storage_io/file.rs
@@ -112,7 +112,21 @@ impl FileIO {
 /// new contents, even if writing fails or is interrupted.
 fn replace_file(path: &path::Path, contents: &[u8]) -> io::Result<()> {
     // Symbolic links should stay in place, replace the file they are pointing to.
-    let path = fs::canonicalize(path).unwrap_or_else(|_| path.to_path_buf());
+    let path = match fs::canonicalize(path) {
+        Err(error) if error.kind() == io::ErrorKind::NotFound => match fs::read_link(path) {
+            Ok(target) => path.with_file_name("").join(target),
+            Err(error)
+                if matches!(
+                    error.kind(),
+                    io::ErrorKind::InvalidInput | io::ErrorKind::NotFound
+                ) =>
+            {
+                path.to_path_buf()
+            }
+            Err(error) => return Err(error),
+        },
+        result => result?,
+    };
 
     let permissions = match fs::OpenOptions::new().write(true).open(&path) {
         Ok(existing) => {
-- 
2.43.0


From 61c3a90720be7af4eddf84be150d117cb5f9a220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:20 +0000
Subject: [PATCH 19/23] fix: Keep owner and group of the storage file and don't
 let other users read its temporary replacement

---
 pfp/src/storage_io/file.rs | 60 +++++++++++++++++++++++++++-----------
 1 file changed, 43 insertions(+), 17 deletions(-)

diff --git a/pfp/src/storage_io/file.rs b/pfp/src/storage_io/file.rs
index 56e85bd..b75b440 100644
--- a/pfp/src/storage_io/file.rs
+++ b/pfp/src/storage_io/file.rs
@@ -128,26 +128,25 @@ fn replace_file(path: &path::Path, contents: &[u8]) -> io::Result<()> {
         result => result?,
     };
 
-    let permissions = match fs::OpenOptions::new().write(true).open(&path) {
+    let existing = match fs::OpenOptions::new().write(true).open(&path) {
         Ok(existing) => {
             let metadata = existing.metadata()?;
             if !metadata.is_file() {
                 return fs::write(&path, contents);
             }
-            Some(metadata.permissions())
+            Some(metadata)
         }
         Err(error) if error.kind() == io::ErrorKind::NotFound => None,
         Err(error) => return Err(error),
     };
 
-    let (temp_path, mut temp_file) = create_temp_file(&path)?;
-    let result = temp_file
-        .write_all(contents)
-        .and_then(|_| match permissions {
-            Some(permissions) => temp_file.set_permissions(permissions),
-            None => Ok(()),
-        })
-        .and_then(|_| temp_file.sync_all());
+    let (temp_path, mut temp_file) = create_temp_file(&path, existing.is_some())?;
+    let result = match existing {
+        Some(existing) => copy_access(&existing, &temp_file),
+        None => Ok(()),
+    }
+    .and_then(|_| temp_file.write_all(contents))
+    .and_then(|_| temp_file.sync_all());
     drop(temp_file);
 
     let result = result.and_then(|_| fs::rename(&temp_path, &path));
@@ -168,20 +167,47 @@ fn replace_file(path: &path::Path, contents: &[u8]) -> io::Result<()> {
     Ok(())
 }
 
-/// Creates a new file next to the given path.
-fn create_temp_file(path: &path::Path) -> io::Result<(path::PathBuf, fs::File)> {
+/// Creates a new file next to the given path. A private file cannot be accessed by other users.
+fn create_temp_file(path: &path::Path, private: bool) -> io::Result<(path::PathBuf, fs::File)> {
+    let mut options = fs::OpenOptions::new();
+    options.write(true).create_new(true);
+    if private {
+        #[cfg(unix)]
+        std::os::unix::fs::OpenOptionsExt::mode(&mut options, 0o600);
+    }
+
     let mut counter = 0u32;
     loop {
         let mut name = path.file_name().unwrap_or_default().to_os_string();
         name.push(format!(".{}-{}.tmp", std::process::id(), counter));
         let temp_path = path.with_file_name(name);
-        match fs::OpenOptions::new()
-            .write(true)
-            .create_new(true)
-            .open(&temp_path)
-        {
+        match options.open(&temp_path) {
             Err(error) if error.kind() == io::ErrorKind::AlreadyExists => counter += 1,
             result => return result.map(|file| (temp_path, file)),
         }
     }
 }
+
+/// Makes sure that a new file can be accessed by the same users as the file it will replace.
+#[cfg(unix)]
+fn copy_access(existing: &fs::Metadata, file: &fs::File) -> io::Result<()> {
+    use std::os::unix::fs::{fchown, MetadataExt, PermissionsExt};
+
+    // Changing the owner typically requires privileges.
+    if fchown(file, Some(existing.uid()), Some(existing.gid())).is_err() {
+        let _ = fchown(file, None, Some(existing.gid()));
+    }
+
+    let mut mode = existing.mode() & 0o777;
+    if file.metadata()?.gid() != existing.gid() {
+        // This is a different group, it shouldn't get more access than everybody else.
+        mode = (mode & 0o707) | ((mode & 0o007) << 3);
+    }
+    file.set_permissions(fs::Permissions::from_mode(mode))
+}
+
+/// Makes sure that a new file can be accessed by the same users as the file it will replace.
+#[cfg(not(unix))]
+fn copy_access(existing: &fs::Metadata, file: &fs::File) -> io::Result<()> {
+    file.set_permissions(existing.permissions())
+}
-- 
2.43.0


From 211fc892069d977ea3d83b5305be4bbf8bd29aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:16 +0000
Subject: [PATCH 20/23] fix: do not discard changes made by other processes

---
 pfp/src/storage_io/file.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/pfp/src/storage_io/file.rs b/pfp/src/storage_io/file.rs
index b75b440..f33341b 100644
--- a/pfp/src/storage_io/file.rs
+++ b/pfp/src/storage_io/file.rs
@@ -81,7 +81,7 @@ impl super::StorageIO for FileIO {
     }
 
     fn flush(&mut self) -> Result<(), Error> {
-        let result = self.save();
+        let result = self.check_unchanged().and_then(|_| self.save());
         if result.is_ok() {
             self.saved_data = self.data.clone();
         } else {
@@ -94,6 +94,28 @@ impl super::StorageIO for FileIO {
 }
 
 impl FileIO {
+    /// Makes sure that saving won't discard changes which another process made since the data was
+    /// loaded or saved the last time.
+    fn check_unchanged(&self) -> Result<(), Error> {
+        let is_file = fs::metadata(&self.path)
+            .map(|metadata| metadata.is_file())
+            .unwrap_or(false);
+        if self.saved_data.is_empty() || !is_file {
+            return Ok(());
+        }
+
+        if Self::load(&self.path)?.data == self.saved_data {
+            Ok(())
+        } else {
+            Err(Error::FileWriteFailure {
+                error: io::Error::new(
+                    io::ErrorKind::Other,
+                    "the file was changed by another process, please start over",
+                ),
+            })
+        }
+    }
+
     /// Writes the current data to disk.
     fn save(&self) -> Result<(), Error> {
         let contents =
-- 
2.43.0


From 0bd521a0d34ef96a614679df3bffc1d57ce6b8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:16 +0000
Subject: [PATCH 21/23] fix: refuse to change the storage file from a shell

---
 cli/src/processor/shell.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/src/processor/shell.rs b/cli/src/processor/shell.rs
index c71204c..23d8119 100644
--- a/cli/src/processor/shell.rs
+++ b/cli/src/processor/shell.rs
@@ -100,6 +100,10 @@ pub fn processor<IO: storage_io::StorageIO>(
                 }
 
                 let mut new_args = print_errors!(Args::from_arg_matches(&matches));
+                if new_args.storage.is_some() {
+                    eprintln!("You cannot change the storage file from a shell.");
+                    continue;
+                }
                 new_args.stdin_passwords = args.stdin_passwords;
 
                 print_errors!(super::process_command(new_args, storage_path, passwords));
-- 
2.43.0


From 21fc00039fb9a83cd6fa7113dadc26b1f54ac1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:25 +0000
Subject: [PATCH 22/23] fix: Use a short name for the temporary file when
 saving

Its name used to be derived from the name of the storage file. With long
file names the result exceeded the limit of the file system so that saving
always failed.
---
 pfp/src/storage_io/file.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pfp/src/storage_io/file.rs b/pfp/src/storage_io/file.rs
index f33341b..629e795 100644
--- a/pfp/src/storage_io/file.rs
+++ b/pfp/src/storage_io/file.rs
@@ -200,9 +200,8 @@ fn create_temp_file(path: &path::Path, private: bool) -> io::Result<(path::PathB
 
     let mut counter = 0u32;
     loop {
-        let mut name = path.file_name().unwrap_or_default().to_os_string();
-        name.push(format!(".{}-{}.tmp", std::process::id(), counter));
-        let temp_path = path.with_file_name(name);
+        // The name shouldn't depend on the original one, appending to it might exceed length limits.
+        let temp_path = path.with_file_name(format!(".pfp-{}-{}.tmp", std::process::id(), counter));
         match options.open(&temp_path) {
             Err(error) if error.kind() == io::ErrorKind::AlreadyExists => counter += 1,
             result => return result.map(|file| (temp_path, file)),
-- 
2.43.0


From a76f832f21d199aaf92dc0445238c0d60a160947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:00 +0000
Subject: [PATCH 23/23] fix: Don't panic if there is no configuration directory

Without a home directory all commands using the default storage failed
with a panic, the shell did so even if a storage file was given. Report
an error or go on without command history instead.
---
 cli/src/main.rs            | 14 +++++++----
 cli/src/processor/shell.rs | 48 ++++++++++++++++++++++++--------------
 2 files changed, 41 insertions(+), 21 deletions(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index d1e4f51..65a4879 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -55,20 +55,26 @@ impl Drop for Shutdown {
     }
 }
 
-fn get_default_storage_path() -> std::path::PathBuf {
+fn get_default_storage_path() -> Result<std::path::PathBuf, String> {
     let app_info = app_dirs2::AppInfo {
         name: "PfP",
         author: "Wladimir Palant",
     };
-    let mut path = app_dirs2::get_app_root(app_dirs2::AppDataType::UserConfig, &app_info).unwrap();
+    let mut path = app_dirs2::get_app_root(app_dirs2::AppDataType::UserConfig, &app_info)
+        .map_err(|error| {
+            format!(
+                "Failed determining configuration directory ({}). Use --storage option?",
+                error
+            )
+        })?;
     path.push("storage.json");
-    path
+    Ok(path)
 }
 
 fn main_inner(args: Args) -> Result<(), String> {
     let storage_path = match &args.storage {
         Some(value) => value.clone(),
-        None => get_default_storage_path(),
+        None => get_default_storage_path()?,
     };
 
     let io = if let Commands::SetPrimary { assume_yes } = &args.command {
diff --git a/cli/src/processor/shell.rs b/cli/src/processor/shell.rs
index 23d8119..baa2be2 100644
--- a/cli/src/processor/shell.rs
+++ b/cli/src/processor/shell.rs
@@ -11,14 +11,24 @@ use pfp::storage_io;
 use rustyline::error::ReadlineError;
 use std::io::Write;
 
-fn get_default_history_path() -> std::path::PathBuf {
+fn get_default_history_path() -> Option<std::path::PathBuf> {
     let app_info = app_dirs2::AppInfo {
         name: "PfP",
         author: "Wladimir Palant",
     };
-    let mut path = app_dirs2::get_app_root(app_dirs2::AppDataType::UserConfig, &app_info).unwrap();
-    path.push("history.txt");
-    path
+    match app_dirs2::get_app_root(app_dirs2::AppDataType::UserConfig, &app_info) {
+        Ok(mut path) => {
+            path.push("history.txt");
+            Some(path)
+        }
+        Err(error) => {
+            eprintln!(
+                "Failed determining configuration directory ({}), not using command history.",
+                error
+            );
+            None
+        }
+    }
 }
 
 pub fn processor<IO: storage_io::StorageIO>(
@@ -29,17 +39,19 @@ pub fn processor<IO: storage_io::StorageIO>(
     let history_path = match &args.command {
         Commands::Shell {
             history: Some(value),
-        } => value.clone(),
+        } => Some(value.clone()),
         _ => get_default_history_path(),
     };
 
     let mut editor = rustyline::Editor::<()>::new();
-    if let Err(error) = editor.load_history(&history_path) {
-        eprintln!(
-            "Did not load previous command history from {} ({}).",
-            history_path.display(),
-            error
-        );
+    if let Some(history_path) = &history_path {
+        if let Err(error) = editor.load_history(history_path) {
+            eprintln!(
+                "Did not load previous command history from {} ({}).",
+                history_path.display(),
+                error
+            );
+        }
     }
 
     println!("Enter a command or type 'help' for a list of commands. Enter 'help <command>' for detailed information on a command.");
@@ -119,12 +131,14 @@ pub fn processor<IO: storage_io::StorageIO>(
         }
     }
 
-    if let Err(error) = editor.save_history(&history_path) {
-        eprintln!(
-            "Failed saving history to {} ({}).",
-            history_path.display(),
-            error
-        );
+    if let Some(history_path) = &history_path {
+        if let Err(error) = editor.save_history(history_path) {
+            eprintln!(
+                "Failed saving history to {} ({}).",
+                history_path.display(),
+                error
+            );
+        }
     }
 
     Ok(())
-- 
2.43.0

