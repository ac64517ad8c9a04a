From 6210b90fb77028e5bf9ccfbd393cb85183c05e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:09 +0000
Subject: [PATCH 01/13] fix: accept the asset delegate when a manager delegate
 is also present

assert_delegate folded over the delegates so that the last one present
decided alone; a delegate holding the role was refused whenever the asset
had a manager extension.
---
 programs/asset/program/src/utils.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/programs/asset/program/src/utils.rs b/programs/asset/program/src/utils.rs
index f726f1c..8c97ae8 100644
--- a/programs/asset/program/src/utils.rs
+++ b/programs/asset/program/src/utils.rs
@@ -36,6 +36,11 @@ pub fn assert_delegate(
     delegates.iter().fold(
         Err(AssetError::DelegateNotFound.into()),
         |result, delegate| {
+            // one matching delegate is enough
+            if result.is_ok() {
+                return result;
+            }
+
             if let Some(delegate) = delegate {
                 require!(
                     *delegate.address == *target,
-- 
2.43.0


From 429001613b335c9c5b9d89881dced11a99350c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:34 +0000
Subject: [PATCH 02/13] fix: give the mutable proxy view its own extension type

---
 programs/asset/types/src/extensions/proxy.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/asset/types/src/extensions/proxy.rs b/programs/asset/types/src/extensions/proxy.rs
index abef803..0c46abd 100644
--- a/programs/asset/types/src/extensions/proxy.rs
+++ b/programs/asset/types/src/extensions/proxy.rs
@@ -82,7 +82,7 @@ pub struct ProxyMut<'a> {
 }
 
 impl<'a> ExtensionDataMut<'a> for ProxyMut<'a> {
-    const TYPE: ExtensionType = ExtensionType::Manager;
+    const TYPE: ExtensionType = ExtensionType::Proxy;
 
     fn from_bytes_mut(bytes: &'a mut [u8]) -> Self {
         let (program, remainder) = bytes.split_at_mut(std::mem::size_of::<Pubkey>());
-- 
2.43.0


From c56a0fb2840fb4b9caada4a132c7cd2c68809051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:32 +0000
Subject: [PATCH 03/13] fix: do not let the creators' total share wrap around

---
 programs/asset/types/src/extensions/creators.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/programs/asset/types/src/extensions/creators.rs b/programs/asset/types/src/extensions/creators.rs
index c2b9c5a..2266673 100644
--- a/programs/asset/types/src/extensions/creators.rs
+++ b/programs/asset/types/src/extensions/creators.rs
@@ -67,7 +67,7 @@ impl<'a> ExtensionDataMut<'a> for CreatorsMut<'a> {
 impl Lifecycle for CreatorsMut<'_> {
     /// Validates the creators' share added up to `100`.
     fn on_create(&mut self, authority: Option<&Pubkey>) -> Result<(), Error> {
-        let mut total = 0;
+        let mut total = 0u8;
 
         self.creators.iter_mut().for_each(|creator| {
             // creators are always initialized as unverified, unless it matches
@@ -77,7 +77,8 @@ impl Lifecycle for CreatorsMut<'_> {
             } else {
                 false.into()
             };
-            total += creator.share;
+            // saturating: a total above the maximum must not wrap around to it
+            total = creator.share.saturating_add(total);
         });
 
         if total != TOTAL_SHARE {
@@ -88,7 +89,7 @@ impl Lifecycle for CreatorsMut<'_> {
     }
 
     fn on_update(&mut self, other: &mut Self, authority: Option<&Pubkey>) -> Result<(), Error> {
-        let mut total = 0;
+        let mut total = 0u8;
         other.creators.iter_mut().for_each(|creator| {
             if let Some(original) = self.get(&creator.address) {
                 // creators maintain their verified status
@@ -102,7 +103,8 @@ impl Lifecycle for CreatorsMut<'_> {
                     false.into()
                 };
             }
-            total += creator.share;
+            // saturating: a total above the maximum must not wrap around to it
+            total = creator.share.saturating_add(total);
         });
 
         if total != 100 {
-- 
2.43.0


From 306b9258c5caf899503ca7eeb39514a80ce933f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:32 +0000
Subject: [PATCH 04/13] fix: verify the authority as a creator on create only
 if it signed

---
 programs/asset/program/src/processor/create.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/programs/asset/program/src/processor/create.rs b/programs/asset/program/src/processor/create.rs
index 975e562..02c5397 100644
--- a/programs/asset/program/src/processor/create.rs
+++ b/programs/asset/program/src/processor/create.rs
@@ -189,7 +189,12 @@ pub fn process_create(
         on_create(
             extension.extension_type(),
             &mut current[..extension.length() as usize],
-            Some(ctx.accounts.authority.key()),
+            // the authority signature is optional, without it nothing
+            // can be verified on its behalf
+            ctx.accounts
+                .authority
+                .is_signer()
+                .then(|| ctx.accounts.authority.key()),
         )
         .map_err(|error| {
             msg!("[ERROR] {}", error);
-- 
2.43.0


From f4dfdcdad0217ff41975f50973e3f60ac155d485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:32 +0000
Subject: [PATCH 05/13] fix: validate the extension data of a buffer, not its
 header

---
 programs/asset/program/src/processor/update.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/programs/asset/program/src/processor/update.rs b/programs/asset/program/src/processor/update.rs
index ca6ccd8..9f8f983 100644
--- a/programs/asset/program/src/processor/update.rs
+++ b/programs/asset/program/src/processor/update.rs
@@ -202,10 +202,11 @@ pub fn process_update(
             drop(extension_data);
 
             let start = offset + Extension::LEN;
+            let input = Asset::LEN + Extension::LEN;
             // validate the extension data
             validate(
                 extension_type,
-                &mut buffer.try_borrow_mut_data()?[Asset::LEN..Asset::LEN + header_length],
+                &mut buffer.try_borrow_mut_data()?[input..input + header_length],
                 if update {
                     Some(&mut account_data[start..start + current_length])
                 } else {
-- 
2.43.0


From b235de02dbe3f0457ba0e35e950abc8e99be6164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:03 +0000
Subject: [PATCH 06/13] fix: validate an extension updated without data

---
 .../asset/program/src/processor/update.rs     | 34 +++++++++----------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/programs/asset/program/src/processor/update.rs b/programs/asset/program/src/processor/update.rs
index 9f8f983..2737b8b 100644
--- a/programs/asset/program/src/processor/update.rs
+++ b/programs/asset/program/src/processor/update.rs
@@ -220,25 +220,23 @@ pub fn process_update(
 
             (header_length, None)
         } else if let Some(args) = args.extension {
-            let length = if let Some(mut extension_data) = args.data {
-                let start = offset + Extension::LEN;
-                // validate the extension data
-                validate(
-                    extension_type,
-                    extension_data.as_mut_slice(),
-                    if update {
-                        Some(&mut account_data[start..start + current_length])
-                    } else {
-                        None
-                    },
-                    ctx.accounts.authority.key(),
-                )?;
+            // the extension might not have any data
+            let mut extension_data = args.data.unwrap_or_default();
+            let start = offset + Extension::LEN;
+            // validate the extension data (even when there is none, since not all
+            // extensions can be left without data)
+            validate(
+                extension_type,
+                extension_data.as_mut_slice(),
+                if update {
+                    Some(&mut account_data[start..start + current_length])
+                } else {
+                    None
+                },
+                ctx.accounts.authority.key(),
+            )?;
 
-                (extension_data.len(), Some(extension_data))
-            } else {
-                // extension does not have any data
-                (0, None)
-            };
+            let length = (extension_data.len(), Some(extension_data));
 
             #[cfg(feature = "logging")]
             msg!("Updating extension from instruction data");
-- 
2.43.0


From f46b892f22c95074f6f658420aa9a560bc802e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:25 +0000
Subject: [PATCH 07/13] fix: move the boundaries of the extensions behind a
 removed one

---
 .../asset/program/src/processor/remove.rs     | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/programs/asset/program/src/processor/remove.rs b/programs/asset/program/src/processor/remove.rs
index 3cfbd62..7e6a641 100644
--- a/programs/asset/program/src/processor/remove.rs
+++ b/programs/asset/program/src/processor/remove.rs
@@ -126,6 +126,26 @@ pub fn process_remove(
     }
 
     let bytes_to_remove = boundary.saturating_sub(offset);
+
+    // updates the boundaries of the extensions that were moved
+
+    let mut account_data = ctx.accounts.asset.try_borrow_mut_data()?;
+    let mut cursor = offset;
+
+    while cursor + Extension::LEN <= offset + bytes_to_move {
+        let extension = Extension::load_mut(&mut account_data[cursor..cursor + Extension::LEN]);
+
+        if let Ok(ExtensionType::None) = extension.try_extension_type() {
+            break;
+        }
+
+        let boundary = extension.boundary().saturating_sub(bytes_to_remove as u32);
+        extension.set_boundary(boundary);
+        cursor = boundary as usize;
+    }
+
+    drop(account_data);
+
     resize(
         ctx.accounts
             .asset
-- 
2.43.0


From bbc1e544836e8a4e9e13db5e7688cf4badc1701d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:25 +0000
Subject: [PATCH 08/13] fix: find an extension without data at the end of the
 account

---
 programs/asset/program/src/processor/remove.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/asset/program/src/processor/remove.rs b/programs/asset/program/src/processor/remove.rs
index 7e6a641..890f526 100644
--- a/programs/asset/program/src/processor/remove.rs
+++ b/programs/asset/program/src/processor/remove.rs
@@ -71,7 +71,7 @@ pub fn process_remove(
     let mut offset = Asset::LEN;
     let mut boundary = None;
 
-    while offset + Extension::LEN < account_data.len() {
+    while offset + Extension::LEN <= account_data.len() {
         let current = Extension::load(&account_data[offset..offset + Extension::LEN]);
 
         match current.try_extension_type() {
-- 
2.43.0


From e4d2819b2b3960dbfa8d875bc4b77454fd433610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:25 +0000
Subject: [PATCH 09/13] fix: do not remove an extension of no type

---
 programs/asset/program/src/processor/remove.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/asset/program/src/processor/remove.rs b/programs/asset/program/src/processor/remove.rs
index 890f526..df1e373 100644
--- a/programs/asset/program/src/processor/remove.rs
+++ b/programs/asset/program/src/processor/remove.rs
@@ -89,7 +89,7 @@ pub fn process_remove(
     let boundary = boundary.ok_or(AssetError::ExtensionNotFound)?;
 
     match extension_type {
-        ExtensionType::Manager | ExtensionType::Proxy => {
+        ExtensionType::None | ExtensionType::Manager | ExtensionType::Proxy => {
             return err!(
                 AssetError::ExtensionDataInvalid,
                 "invalid extension type: {:?}",
-- 
2.43.0


From 362abec3a52211b195d5a7f0fa3120d9ac1ee077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:25 +0000
Subject: [PATCH 10/13] fix: update an asset that has unused space after its
 extensions

---
 programs/asset/program/src/processor/update.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/programs/asset/program/src/processor/update.rs b/programs/asset/program/src/processor/update.rs
index 2737b8b..15df8f7 100644
--- a/programs/asset/program/src/processor/update.rs
+++ b/programs/asset/program/src/processor/update.rs
@@ -158,7 +158,7 @@ pub fn process_update(
         //   - update flag (false when creating the extension)
         let mut extension = None;
 
-        while offset < account_data.len() {
+        while offset + Extension::LEN <= account_data.len() {
             let current = Extension::load(&account_data[offset..offset + Extension::LEN]);
 
             match current.try_extension_type() {
@@ -345,8 +345,14 @@ pub fn process_update(
         // updates the boundaries of any subsequent extensions
         let mut cursor = updated_boundary;
 
-        while cursor < account_data.len() {
+        while cursor + Extension::LEN <= account_data.len() {
             let extension = Extension::load_mut(&mut account_data[cursor..cursor + Extension::LEN]);
+
+            // the account can have unused space after the last extension
+            if let Ok(ExtensionType::None) = extension.try_extension_type() {
+                break;
+            }
+
             let boundary = extension.boundary().saturating_add_signed(delta);
             extension.set_boundary(boundary);
             cursor = boundary as usize;
-- 
2.43.0


From 5b0b609beb8f22193158193add98c09942962039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:25 +0000
Subject: [PATCH 11/13] fix: do not take unused space for an extension of no
 type to update

---
 programs/asset/program/src/processor/update.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/asset/program/src/processor/update.rs b/programs/asset/program/src/processor/update.rs
index 15df8f7..9242105 100644
--- a/programs/asset/program/src/processor/update.rs
+++ b/programs/asset/program/src/processor/update.rs
@@ -162,12 +162,12 @@ pub fn process_update(
             let current = Extension::load(&account_data[offset..offset + Extension::LEN]);
 
             match current.try_extension_type() {
+                Ok(ExtensionType::None) => break,
                 Ok(t) if t == extension_type => {
                     extension =
                         Some((current.length() as usize, current.boundary() as usize, true));
                     break;
                 }
-                Ok(ExtensionType::None) => break,
                 _ => offset = current.boundary() as usize,
             }
         }
-- 
2.43.0


From 24fcbe2a6c4d210d140c7a57efa0a532a736ee63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:25 +0000
Subject: [PATCH 12/13] fix: do not write past the length of an extension

---
 programs/asset/program/src/processor/write.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/programs/asset/program/src/processor/write.rs b/programs/asset/program/src/processor/write.rs
index 7a9d870..01b8681 100644
--- a/programs/asset/program/src/processor/write.rs
+++ b/programs/asset/program/src/processor/write.rs
@@ -84,6 +84,19 @@ pub(crate) fn process_write(
         return err!(AssetError::InvalidAccountLength);
     }
 
+    // the data cannot go past the extension length
+    let start = if data.overwrite {
+        offset
+    } else {
+        asset_data.len()
+    };
+
+    require!(
+        start.saturating_add(data.bytes.len()) <= expected,
+        AssetError::ExtensionLengthInvalid,
+        "extension length mismatch"
+    );
+
     drop(asset_data);
 
     let offset = if data.overwrite {
-- 
2.43.0


From cedcf5420f64d3b091b06712b87e5d5b38530e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:25 +0000
Subject: [PATCH 13/13] fix: pad an extension completed by overwriting its data

---
 programs/asset/program/src/processor/write.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/programs/asset/program/src/processor/write.rs b/programs/asset/program/src/processor/write.rs
index 01b8681..bde6b14 100644
--- a/programs/asset/program/src/processor/write.rs
+++ b/programs/asset/program/src/processor/write.rs
@@ -103,8 +103,14 @@ pub(crate) fn process_write(
         #[cfg(feature = "logging")]
         msg!("Overwriting extension data");
 
+        let mut extended = offset.saturating_add(data.bytes.len());
+
+        if extended == expected {
+            extended = boundary as usize;
+        }
+
         resize(
-            offset.saturating_add(data.bytes.len()),
+            extended,
             ctx.accounts.asset,
             Some(ctx.accounts.payer),
             Some(ctx.accounts.system_program),
-- 
2.43.0

