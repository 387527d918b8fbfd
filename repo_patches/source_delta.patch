From f995c86ee3694816f73019f5e3b419c6403c94a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:35 +0000
Subject: [PATCH 01/35] fix: keep empty lists and dictionaries when
 deserialising

---
 src/lamppost/messages/RawDatagram.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lamppost/messages/RawDatagram.cpp b/src/lamppost/messages/RawDatagram.cpp
index e005bc2..1ea28a7 100644
--- a/src/lamppost/messages/RawDatagram.cpp
+++ b/src/lamppost/messages/RawDatagram.cpp
@@ -375,6 +375,7 @@ namespace lp
 
         case schemas::DatagramType::DatagramType_List:
         {
+          rawDatagram->mType = RawDatagramType::List;
           unsigned int length = structure->list_content()->size();
 
           for(unsigned int i = 0; i < length; ++i)
@@ -385,6 +386,7 @@ namespace lp
 
         case schemas::DatagramType::DatagramType_Dictionary:
         {
+          rawDatagram->mType = RawDatagramType::Dictionary;
           unsigned int length = std::min(structure->dictionary_keys()->size(), structure->dictionary_contents()->size());
 
           for(unsigned int i = 0; i < length; ++i)
-- 
2.43.0


From db9db322380a6041c2e19a17bf9a007495423e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:06 +0000
Subject: [PATCH 02/35] fix: keep empty lists and dictionaries when reading
 JSON

---
 src/lamppost/messages/RawDatagram.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lamppost/messages/RawDatagram.cpp b/src/lamppost/messages/RawDatagram.cpp
index 1ea28a7..79c3f27 100644
--- a/src/lamppost/messages/RawDatagram.cpp
+++ b/src/lamppost/messages/RawDatagram.cpp
@@ -450,6 +450,7 @@ namespace lp
         case json_type_array:
         {
           json_object* jarray = jobj, *jvalue;
+          root->mType = RawDatagramType::List;
 
           for(size_t i = 0; i < json_object_array_length(jarray); i++)
           {
@@ -463,6 +464,8 @@ namespace lp
 
         case json_type_object:
         {
+          root->mType = RawDatagramType::Dictionary;
+
           // Note(fairlight1337): The following line is excluded from tidy checks as the utilized macro expands to
           // (according to tidy) unclean code which cannot be changed at this time.
           json_object_object_foreach(jobj, key, val) // NOLINT
-- 
2.43.0


From 9f8cdef8751a4f1d749dbfd43754eebcace2d801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:06 +0000
Subject: [PATCH 03/35] fix: keep null characters in JSON strings

---
 src/lamppost/messages/RawDatagram.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamppost/messages/RawDatagram.cpp b/src/lamppost/messages/RawDatagram.cpp
index 79c3f27..969ea06 100644
--- a/src/lamppost/messages/RawDatagram.cpp
+++ b/src/lamppost/messages/RawDatagram.cpp
@@ -444,7 +444,7 @@ namespace lp
 
         case json_type_string:
         {
-          *root = std::string(json_object_get_string(jobj));
+          *root = std::string(json_object_get_string(jobj), json_object_get_string_len(jobj));
         } break;
 
         case json_type_array:
-- 
2.43.0


From 0fc3cffefa112e61fd645bb96740c1bfd204162d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:06 +0000
Subject: [PATCH 04/35] fix: read JSON documents consisting of a single number

---
 src/lamppost/messages/RawDatagram.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lamppost/messages/RawDatagram.cpp b/src/lamppost/messages/RawDatagram.cpp
index 969ea06..6bee6f7 100644
--- a/src/lamppost/messages/RawDatagram.cpp
+++ b/src/lamppost/messages/RawDatagram.cpp
@@ -413,7 +413,8 @@ namespace lp
 
       tok = json_tokener_new_ex(1000);
 
-      jobj = json_tokener_parse_ex(tok, json.c_str(), json.length());
+      // The terminating null character is passed along, otherwise the end of a document that is just a number is not recognized.
+      jobj = json_tokener_parse_ex(tok, json.c_str(), json.length() + 1);
       error = tok->err;
 
       if(error == json_tokener_success)
-- 
2.43.0


From ec04bf2f7b598e926274c2b939154ad79f039f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:06 +0000
Subject: [PATCH 05/35] fix: compare all search paths of plugin manager
 configurations

---
 include/lamppost/plugin/PluginManagerConfiguration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lamppost/plugin/PluginManagerConfiguration.h b/include/lamppost/plugin/PluginManagerConfiguration.h
index f884a12..5e89f96 100644
--- a/include/lamppost/plugin/PluginManagerConfiguration.h
+++ b/include/lamppost/plugin/PluginManagerConfiguration.h
@@ -30,7 +30,7 @@ namespace lp
     {
       return
         mBus == rhs.mBus &&
-        std::equal(mTemplateSearchPaths.begin(), mTemplateSearchPaths.end(), rhs.mTemplateSearchPaths.begin());
+        mTemplateSearchPaths == rhs.mTemplateSearchPaths;
     }
 
     bool operator!=(const lp::PluginManagerConfiguration& rhs) const
-- 
2.43.0


From 97a926dbbf569cfcf42124e0dfc6ff1dca99376c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:06 +0000
Subject: [PATCH 06/35] fix: compare the configuration files of instance
 configurations

---
 include/lamppost/LampPostConfiguration.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/lamppost/LampPostConfiguration.h b/include/lamppost/LampPostConfiguration.h
index 969413e..7dc402b 100644
--- a/include/lamppost/LampPostConfiguration.h
+++ b/include/lamppost/LampPostConfiguration.h
@@ -25,7 +25,9 @@ namespace lp
 
     bool operator==(const LampPostConfiguration& other) const
     {
-      return mPluginManagerConfiguration == other.mPluginManagerConfiguration;
+      return
+        mPluginManagerConfiguration == other.mPluginManagerConfiguration &&
+        mConfigurationFiles == other.mConfigurationFiles;
     }
 
     bool operator!=(const LampPostConfiguration& other) const
-- 
2.43.0


From 3129cc52e83b16372927c34140a2ecd13b5a7bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:21 +0000
Subject: [PATCH 07/35] fix: reject bytes that are not a valid message

---
 src/lamppost/messages/Message.cpp     | 25 +++++++++++++++++++++++++
 src/lamppost/messages/RawDatagram.cpp | 17 +++++++++++++++++
 2 files changed, 42 insertions(+)

diff --git a/src/lamppost/messages/Message.cpp b/src/lamppost/messages/Message.cpp
index 09ef905..0d99442 100644
--- a/src/lamppost/messages/Message.cpp
+++ b/src/lamppost/messages/Message.cpp
@@ -1,8 +1,15 @@
 #include <lamppost/messages/Message.h>
 
+#include <lamppost/exceptions/OperationFailedException.h>
+
 
 namespace lp {
   namespace messages {
+    namespace
+    {
+      const flatbuffers::uoffset_t MAXIMUM_NESTING_DEPTH = 1000;
+    }
+
     Message::Message(std::string sender, std::string topic, Datagram datagram)
       : mSender(std::move(sender)),
         mTopic(std::move(topic)),
@@ -43,8 +50,26 @@ namespace lp {
 
     messages::Message Message::Deserialize(std::shared_ptr<data::RawBytes> bytesToDeserialize)
     {
+      if(bytesToDeserialize == nullptr || bytesToDeserialize->GetContent() == nullptr)
+      {
+        throw exceptions::ArgumentNullException("bytesToDeserialize", "Bytes to deserialize may not be null.");
+      }
+
+      flatbuffers::Verifier verifier(
+        static_cast<const uint8_t*>(bytesToDeserialize->GetContent()), bytesToDeserialize->GetSize(), MAXIMUM_NESTING_DEPTH);
+
+      if(!schemas::VerifyFBMessageBuffer(verifier))
+      {
+        throw exceptions::OperationFailedException("Bytes do not contain a valid message.");
+      }
+
       const schemas::FBMessage* deserializedMessage = schemas::GetFBMessage(bytesToDeserialize->GetContent());
 
+      if(deserializedMessage->sender() == nullptr || deserializedMessage->topic() == nullptr || deserializedMessage->datagram() == nullptr)
+      {
+        throw exceptions::OperationFailedException("Message is incomplete.");
+      }
+
       return messages::Message(
         deserializedMessage->sender()->str(),
         deserializedMessage->topic()->str(),
diff --git a/src/lamppost/messages/RawDatagram.cpp b/src/lamppost/messages/RawDatagram.cpp
index 6bee6f7..33b25e9 100644
--- a/src/lamppost/messages/RawDatagram.cpp
+++ b/src/lamppost/messages/RawDatagram.cpp
@@ -1,5 +1,7 @@
 #include <lamppost/messages/RawDatagram.h>
 
+#include <lamppost/exceptions/OperationFailedException.h>
+
 
 namespace lp
 {
@@ -356,6 +358,11 @@ namespace lp
           switch(structure->value_type())
           {
             case schemas::ValueType::ValueType_String:
+              if(structure->string_content() == nullptr)
+              {
+                throw exceptions::OperationFailedException("String value is missing.");
+              }
+
               rawDatagram->SetValue<std::string>(structure->string_content()->str());
               break;
 
@@ -375,6 +382,11 @@ namespace lp
 
         case schemas::DatagramType::DatagramType_List:
         {
+          if(structure->list_content() == nullptr)
+          {
+            throw exceptions::OperationFailedException("List content is missing.");
+          }
+
           rawDatagram->mType = RawDatagramType::List;
           unsigned int length = structure->list_content()->size();
 
@@ -386,6 +398,11 @@ namespace lp
 
         case schemas::DatagramType::DatagramType_Dictionary:
         {
+          if(structure->dictionary_keys() == nullptr || structure->dictionary_contents() == nullptr)
+          {
+            throw exceptions::OperationFailedException("Dictionary content is missing.");
+          }
+
           rawDatagram->mType = RawDatagramType::Dictionary;
           unsigned int length = std::min(structure->dictionary_keys()->size(), structure->dictionary_contents()->size());
 
-- 
2.43.0


From 4ea023b6641b765f61c76c3cfb88da34d12cac1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:17 +0000
Subject: [PATCH 08/35] fix: list the directory entries the filter asks for

---
 src/lamppost/Filesystem.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lamppost/Filesystem.cpp b/src/lamppost/Filesystem.cpp
index 1720a0d..2fa830e 100644
--- a/src/lamppost/Filesystem.cpp
+++ b/src/lamppost/Filesystem.cpp
@@ -99,6 +99,11 @@ namespace lp
     if(d != nullptr) {
       while((dir = readdir(d)) != nullptr) {
         std::string name = static_cast<char*>(dir->d_name);
+
+        if(name == "." || name == "..") {
+          continue;
+        }
+
         std::string fullPath = CombinePaths(path, name);
 
         bool filterIncludesFiles = (static_cast<int>(filter) & static_cast<int>(lp::FilesystemObjectType::File)) != 0;
@@ -106,7 +111,7 @@ namespace lp
           contents.push_back(name);
         }
 
-        bool filterIncludesDirectories = (static_cast<int>(filter) & static_cast<int>(lp::FilesystemObjectType::File)) != 0;
+        bool filterIncludesDirectories = (static_cast<int>(filter) & static_cast<int>(lp::FilesystemObjectType::Directory)) != 0;
         if(filterIncludesDirectories && IsDirectory(fullPath)) {
           contents.push_back(name);
         }
-- 
2.43.0


From 8e19ae6a1795246483099ffe5056f4c2e6cf9bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:17 +0000
Subject: [PATCH 09/35] fix: return no executable path when it cannot be read

---
 src/lamppost/Filesystem.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lamppost/Filesystem.cpp b/src/lamppost/Filesystem.cpp
index 2fa830e..3dede9b 100644
--- a/src/lamppost/Filesystem.cpp
+++ b/src/lamppost/Filesystem.cpp
@@ -143,9 +143,8 @@ namespace lp
 
     if(bytes >= 0) {
       buffer[bytes] = '\0';
+      path = static_cast<char*>(buffer);
     }
-
-    path = static_cast<char*>(buffer);
 #endif
 
     return path;
-- 
2.43.0


From 7ceacec36e5bd0d5708bd0cb9614bcd88e8d6d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:19 +0000
Subject: [PATCH 10/35] fix: publishers no longer refer to a destroyed bus

---
 src/lamppost/bus/Bus.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lamppost/bus/Bus.cpp b/src/lamppost/bus/Bus.cpp
index a2ad53f..1811102 100644
--- a/src/lamppost/bus/Bus.cpp
+++ b/src/lamppost/bus/Bus.cpp
@@ -47,6 +47,16 @@ namespace lp
     {
       mPublishMessageFunction = nullptr;
 
+      {
+        // Publishers may outlive their bus when held by a client; they must not refer to it any more.
+        std::lock_guard<std::mutex> lock(mPublishersMutex);
+
+        for(const std::shared_ptr<Publisher>& publisher : mPublishers)
+        {
+          publisher->Reset();
+        }
+      }
+
       {
         std::lock_guard<std::mutex> lock(mChildBussesMutex);
         for(std::pair<std::string, std::shared_ptr<Bus>> busPair : mChildBusses)
-- 
2.43.0


From 42c4ba4c0981042681f3943f7d0a95b95359c896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:40 +0000
Subject: [PATCH 11/35] fix: do not lose a stop request made before the bus
 runs

---
 src/lamppost/bus/Bus.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lamppost/bus/Bus.cpp b/src/lamppost/bus/Bus.cpp
index 1811102..7ab07e7 100644
--- a/src/lamppost/bus/Bus.cpp
+++ b/src/lamppost/bus/Bus.cpp
@@ -7,7 +7,7 @@ namespace lp
   {
     Bus::Bus(std::string name)
       : Identifiable(name),
-        mShouldRun(false),
+        mShouldRun(true),
         mIsRootBus(true)
     {
       if(name.empty())
@@ -136,12 +136,15 @@ namespace lp
 
     void Bus::Start()
     {
-      mShouldRun = true;
-
       if(mIsRootBus)
       {
+        // A stop request may already have arrived; it must not be overwritten here.
         Run();
       }
+      else
+      {
+        mShouldRun = true;
+      }
     }
 
     void Bus::Run()
@@ -176,6 +179,9 @@ namespace lp
           Distribute(message);
         }
       }
+
+      // This run is over; the bus may be started again.
+      mShouldRun = true;
     }
 
     void Bus::Stop()
-- 
2.43.0


From 849c39a1f9c157d5d5392c26637fc643befc6d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:13 +0000
Subject: [PATCH 12/35] fix: late or concurrent responses to blocking action
 requests are safe

---
 include/lamppost/bus/ActionConsumer.h |  1 +
 src/lamppost/bus/ActionConsumer.cpp   | 61 ++++++++++++++++++---------
 2 files changed, 41 insertions(+), 21 deletions(-)

diff --git a/include/lamppost/bus/ActionConsumer.h b/include/lamppost/bus/ActionConsumer.h
index 573637a..462c7b4 100644
--- a/include/lamppost/bus/ActionConsumer.h
+++ b/include/lamppost/bus/ActionConsumer.h
@@ -28,6 +28,7 @@ namespace lp
       std::shared_ptr<Subscriber> mResponseSubscriber;
       std::shared_ptr<Publisher> mRequestPublisher;
 
+      std::mutex mOpenRequestsMutex;
       std::map<std::string, std::function<void(messages::Datagram)>> mOpenRequests;
 
     public:
diff --git a/src/lamppost/bus/ActionConsumer.cpp b/src/lamppost/bus/ActionConsumer.cpp
index 8d101ab..8b4d3ec 100644
--- a/src/lamppost/bus/ActionConsumer.cpp
+++ b/src/lamppost/bus/ActionConsumer.cpp
@@ -30,7 +30,11 @@ namespace lp
 
       utilities::Uuid uuid = utilities::Uuid::CreateUuid();
       std::string uuidString = static_cast<std::string>(uuid);
-      mOpenRequests[uuidString] = callback;
+
+      {
+        std::lock_guard<std::mutex> lock(mOpenRequestsMutex);
+        mOpenRequests[uuidString] = callback;
+      }
 
       messages::Datagram wrappedRequest;
       wrappedRequest["invocationId"] = uuidString;
@@ -41,43 +45,58 @@ namespace lp
 
     messages::Datagram ActionConsumer::Request(messages::Datagram request, int timeoutMs)
     {
-      std::atomic<bool> waiting;
-      std::condition_variable cv;
-      std::mutex mtx;
+      // The response may arrive after the timeout, so the callback shares ownership of what it accesses.
+      struct PendingResponse
+      {
+        std::mutex mutex;
+        std::condition_variable cv;
+        bool received = false;
+        messages::Datagram response;
+      };
 
-      std::unique_lock<std::mutex> ul(mtx);
-      messages::Datagram response;
-      waiting = true;
+      std::shared_ptr<PendingResponse> pending = std::make_shared<PendingResponse>();
 
       RequestAsync(
         request,
-        [&](messages::Datagram internalResponse)
+        [pending](messages::Datagram internalResponse)
         {
-          if(waiting)
           {
-            response = internalResponse;
-            waiting = false;
-            cv.notify_one();
+            std::lock_guard<std::mutex> lock(pending->mutex);
+            pending->response = internalResponse;
+            pending->received = true;
           }
+
+          pending->cv.notify_one();
         });
 
-      cv.wait_for(ul, std::chrono::milliseconds(timeoutMs),
-                  [&]
-                  {
-                    return !waiting;
-                  });
+      std::unique_lock<std::mutex> ul(pending->mutex);
+      pending->cv.wait_for(ul, std::chrono::milliseconds(timeoutMs),
+                           [pending]
+                           {
+                             return pending->received;
+                           });
 
-      return response;
+      return pending->response;
     }
 
     void ActionConsumer::ProcessResponse(std::string invocationId, messages::Datagram response)
     {
-      if(mOpenRequests.find(invocationId) != mOpenRequests.end())
+      std::function<void(messages::Datagram)> callback;
+
       {
-        mOpenRequests[invocationId](response);
-        mOpenRequests.erase(invocationId);
+        std::lock_guard<std::mutex> lock(mOpenRequestsMutex);
+
+        if(mOpenRequests.find(invocationId) != mOpenRequests.end())
+        {
+          callback = mOpenRequests[invocationId];
+          mOpenRequests.erase(invocationId);
+        }
       }
 
+      if(callback != nullptr)
+      {
+        callback(response);
+      }
     }
   } // namespace bus
 } // namespace lp
-- 
2.43.0


From 4b66a35fd9c82ec9638175198cab6cc05b0a1a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:29 +0000
Subject: [PATCH 13/35] fix: ignore action messages without a textual
 invocation id

---
 include/lamppost/bus/Bus.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/lamppost/bus/Bus.h b/include/lamppost/bus/Bus.h
index f89078d..505dbe8 100644
--- a/include/lamppost/bus/Bus.h
+++ b/include/lamppost/bus/Bus.h
@@ -136,10 +136,12 @@ namespace lp
         requestSubscriber->SetDatagramCallback(
           [instance](messages::Datagram datagram)
           {
-            // TODO: Check for presence of invocationId field here.
-            std::string invocationId = static_cast<std::string>(datagram["invocationId"]);
+            std::string invocationId = datagram.Get<std::string>("invocationId", "");
 
-            instance->ProcessRequest(invocationId, datagram);
+            if(!invocationId.empty())
+            {
+              instance->ProcessRequest(invocationId, datagram);
+            }
           });
 
         return instance;
@@ -162,10 +164,14 @@ namespace lp
         responseSubscriber->SetDatagramCallback(
           [instance](messages::Datagram datagram)
           {
-            std::string invocationId = static_cast<std::string>(datagram["invocationId"]);
-            messages::Datagram response = datagram["response"];
+            std::string invocationId = datagram.Get<std::string>("invocationId", "");
 
-            instance->ProcessResponse(invocationId, response);
+            if(!invocationId.empty())
+            {
+              messages::Datagram response = datagram["response"];
+
+              instance->ProcessResponse(invocationId, response);
+            }
           });
 
         return instance;
-- 
2.43.0


From 12e520369490b81a28e9eb4e3a8022efcd8efcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:58 +0000
Subject: [PATCH 14/35] fix: close plugin libraries whose identifier is already
 in use

---
 src/lamppost/plugin/PluginManager.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lamppost/plugin/PluginManager.cpp b/src/lamppost/plugin/PluginManager.cpp
index 01ba929..6f2ef33 100644
--- a/src/lamppost/plugin/PluginManager.cpp
+++ b/src/lamppost/plugin/PluginManager.cpp
@@ -95,7 +95,7 @@ namespace lp
 
           std::shared_ptr<PluginTemplateInfo> info = CreateSharedObject<PluginTemplateInfo>(CreateInfo);
 
-          if(!info->mIdentifier.empty())
+          if(!info->mIdentifier.empty() && mTemplates.find(info->mIdentifier) == mTemplates.end())
           {
             mLog.Info("Identifier = " + info->mIdentifier, 3);
 
@@ -138,6 +138,11 @@ namespace lp
               ClosePluginLibrary(handle);
             }
           }
+          else if(!info->mIdentifier.empty())
+          {
+            mLog.Error("Identifier already in use: " + info->mIdentifier, 3);
+            ClosePluginLibrary(handle);
+          }
           else
           {
             mLog.Error("Identifier empty", 3);
-- 
2.43.0


From ca8898ad06b0cb167785de090143b65638c7e6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:50 +0000
Subject: [PATCH 15/35] fix: instance names skip bus names that are already
 taken

---
 src/lamppost/plugin/PluginTemplate.cpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/lamppost/plugin/PluginTemplate.cpp b/src/lamppost/plugin/PluginTemplate.cpp
index fe63f77..cdbd3b5 100644
--- a/src/lamppost/plugin/PluginTemplate.cpp
+++ b/src/lamppost/plugin/PluginTemplate.cpp
@@ -1,5 +1,7 @@
 #include <lamppost/plugin/PluginTemplate.h>
 
+#include <lamppost/exceptions/DuplicateKeyException.h>
+
 
 namespace lp
 {
@@ -24,14 +26,29 @@ namespace lp
   std::shared_ptr<PluginInstance> PluginTemplate::Instantiate(PluginConfiguration configuration, std::shared_ptr<bus::Bus> parentBus)
   {
     int index = 0;
+    std::shared_ptr<bus::Bus> instanceBus = nullptr;
 
-    while(IndexedInstanceExists(index))
+    while(instanceBus == nullptr)
     {
-      index++;
+      while(IndexedInstanceExists(index))
+      {
+        index++;
+      }
+
+      configuration.mIdentifier = mConfiguration.mIdentifier + std::to_string(index);
+
+      try
+      {
+        instanceBus = parentBus->CreateChildBus(configuration.mIdentifier);
+      }
+      catch(exceptions::DuplicateKeyException&)
+      {
+        // The bus name is taken already, for example by an instance of another template.
+        index++;
+      }
     }
 
-    configuration.mIdentifier = mConfiguration.mIdentifier + std::to_string(index);
-    configuration.mBus = parentBus->CreateChildBus(configuration.mIdentifier);
+    configuration.mBus = instanceBus;
 
     mInstances[configuration.mIdentifier] = mConfiguration.mInstantiateFunction(configuration);
 
-- 
2.43.0


From 893eecdfac9218dd05f7efb30a5ce87e395bcb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:44 +0000
Subject: [PATCH 16/35] fix: join plugin workers that ended by themselves

---
 src/lamppost/plugin/PluginInstance.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/lamppost/plugin/PluginInstance.cpp b/src/lamppost/plugin/PluginInstance.cpp
index fc59556..6f9e214 100644
--- a/src/lamppost/plugin/PluginInstance.cpp
+++ b/src/lamppost/plugin/PluginInstance.cpp
@@ -42,14 +42,12 @@ namespace lp
 
   void PluginInstance::Stop()
   {
-    if(mShouldRun)
-    {
-      mShouldRun = false;
+    mShouldRun = false;
 
-      if(mWorkerThread.joinable())
-      {
-        mWorkerThread.join();
-      }
+    // The worker may have ended by itself already; it needs to be joined nevertheless.
+    if(mWorkerThread.joinable())
+    {
+      mWorkerThread.join();
     }
   }
 
-- 
2.43.0


From fff273bbfe0ddef3d5a30103323166eb3be4f22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:23 +0000
Subject: [PATCH 17/35] fix: detach a bus safely while other threads publish

---
 include/lamppost/bus/Bus.h |  1 +
 src/lamppost/bus/Bus.cpp   | 33 +++++++++++++++++++++++++++------
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/include/lamppost/bus/Bus.h b/include/lamppost/bus/Bus.h
index 505dbe8..6bd1841 100644
--- a/include/lamppost/bus/Bus.h
+++ b/include/lamppost/bus/Bus.h
@@ -44,6 +44,7 @@ namespace lp
       std::deque<messages::Message> mQueuedMessages;
       std::condition_variable mNotifier;
       std::mutex mNotifierMutex;
+      std::mutex mPublishMessageFunctionMutex;
       std::function<void(messages::Message)> mPublishMessageFunction;
       std::atomic<bool> mShouldRun;
       bool mIsRootBus;
diff --git a/src/lamppost/bus/Bus.cpp b/src/lamppost/bus/Bus.cpp
index 7ab07e7..a0eee83 100644
--- a/src/lamppost/bus/Bus.cpp
+++ b/src/lamppost/bus/Bus.cpp
@@ -45,7 +45,10 @@ namespace lp
 
     Bus::~Bus()
     {
-      mPublishMessageFunction = nullptr;
+      {
+        std::lock_guard<std::mutex> lock(mPublishMessageFunctionMutex);
+        mPublishMessageFunction = nullptr;
+      }
 
       {
         // Publishers may outlive their bus when held by a client; they must not refer to it any more.
@@ -82,7 +85,14 @@ namespace lp
         throw exceptions::DuplicateKeyException(name, "Child bus names must be unique.");
       }
 
-      std::shared_ptr<Bus> childBus = std::make_shared<Bus>(name, mPublishMessageFunction);
+      std::function<void(messages::Message)> publishMessageFunction;
+
+      {
+        std::lock_guard<std::mutex> publishLock(mPublishMessageFunctionMutex);
+        publishMessageFunction = mPublishMessageFunction;
+      }
+
+      std::shared_ptr<Bus> childBus = std::make_shared<Bus>(name, publishMessageFunction);
       mChildBusses[name] = childBus;
 
       childBus->Start();
@@ -108,9 +118,17 @@ namespace lp
 
     void Bus::Publish(messages::Message message)
     {
-      if(mPublishMessageFunction != nullptr)
+      std::function<void(messages::Message)> publishMessageFunction;
+
       {
-        mPublishMessageFunction(message);
+        // The bus may be detached by another thread meanwhile.
+        std::lock_guard<std::mutex> lock(mPublishMessageFunctionMutex);
+        publishMessageFunction = mPublishMessageFunction;
+      }
+
+      if(publishMessageFunction != nullptr)
+      {
+        publishMessageFunction(message);
       }
     }
 
@@ -221,8 +239,11 @@ namespace lp
 
     void Bus::Detach()
     {
-      mPublishMessageFunction = nullptr;
-      
+      {
+        std::lock_guard<std::mutex> lock(mPublishMessageFunctionMutex);
+        mPublishMessageFunction = nullptr;
+      }
+
       std::lock_guard<std::mutex> lock(mChildBussesMutex);
       for(std::pair<std::string, std::shared_ptr<Bus>> busPair : mChildBusses)
       {
-- 
2.43.0


From 4d48dd09c13a9ec2a4a94b3d6a322b5dbc6d769b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:19 +0000
Subject: [PATCH 18/35] fix: release the system-information action on
 deinitialisation

---
 include/lamppost/bus/ActionProvider.h    |  3 +++
 include/lamppost/bus/Bus.h               |  1 +
 include/lamppost/plugin/PluginInstance.h |  1 +
 src/lamppost/bus/ActionProvider.cpp      | 10 ++++++++++
 src/lamppost/bus/Bus.cpp                 |  7 +++++++
 src/lamppost/plugin/PluginInstance.cpp   |  5 +++++
 src/plugins/sysinfo/SysInfo.cpp          |  3 +++
 7 files changed, 30 insertions(+)

diff --git a/include/lamppost/bus/ActionProvider.h b/include/lamppost/bus/ActionProvider.h
index dbc01b8..0b857a7 100644
--- a/include/lamppost/bus/ActionProvider.h
+++ b/include/lamppost/bus/ActionProvider.h
@@ -31,6 +31,9 @@ namespace lp
 
       void Reset() override;
 
+      std::shared_ptr<Subscriber> GetRequestSubscriber() const;
+      std::shared_ptr<Publisher> GetResponsePublisher() const;
+
       void Respond(std::string invocationId, lp::messages::Datagram response);
 
       void ProcessRequest(std::string invocationId, lp::messages::Datagram request);
diff --git a/include/lamppost/bus/Bus.h b/include/lamppost/bus/Bus.h
index 6bd1841..d81660e 100644
--- a/include/lamppost/bus/Bus.h
+++ b/include/lamppost/bus/Bus.h
@@ -183,6 +183,7 @@ namespace lp
 
       void DeleteSubscriber(std::shared_ptr<bus::Subscriber> subscriber);
       void DeletePublisher(std::shared_ptr<bus::Publisher> publisher);
+      void DeleteActionProvider(std::shared_ptr<bus::ActionProvider> actionProvider);
 
       void Start();
       void Run();
diff --git a/include/lamppost/plugin/PluginInstance.h b/include/lamppost/plugin/PluginInstance.h
index d02fda5..1235aa9 100644
--- a/include/lamppost/plugin/PluginInstance.h
+++ b/include/lamppost/plugin/PluginInstance.h
@@ -93,6 +93,7 @@ namespace lp
 
     void DeleteSubscriber(std::shared_ptr<bus::Subscriber> subscriber);
     void DeletePublisher(std::shared_ptr<bus::Publisher> publisher);
+    void DeleteActionProvider(std::shared_ptr<bus::ActionProvider> actionProvider);
 
     virtual void Initialize() = 0;
     virtual void Run() = 0;
diff --git a/src/lamppost/bus/ActionProvider.cpp b/src/lamppost/bus/ActionProvider.cpp
index 507f26f..d0b5471 100644
--- a/src/lamppost/bus/ActionProvider.cpp
+++ b/src/lamppost/bus/ActionProvider.cpp
@@ -22,6 +22,16 @@ namespace lp
       mCallback = nullptr;
     }
 
+    std::shared_ptr<Subscriber> ActionProvider::GetRequestSubscriber() const
+    {
+      return mRequestSubscriber;
+    }
+
+    std::shared_ptr<Publisher> ActionProvider::GetResponsePublisher() const
+    {
+      return mResponsePublisher;
+    }
+
     void ActionProvider::Respond(std::string invocationId, messages::Datagram response)
     {
       messages::Datagram wrappedResponse;
diff --git a/src/lamppost/bus/Bus.cpp b/src/lamppost/bus/Bus.cpp
index a0eee83..9914dd1 100644
--- a/src/lamppost/bus/Bus.cpp
+++ b/src/lamppost/bus/Bus.cpp
@@ -142,6 +142,13 @@ namespace lp
       DeleteManagedResource(mPublishersMutex, mPublishers, std::move(publisher));
     }
 
+    void Bus::DeleteActionProvider(std::shared_ptr<ActionProvider> actionProvider)
+    {
+      DeleteSubscriber(actionProvider->GetRequestSubscriber());
+      DeletePublisher(actionProvider->GetResponsePublisher());
+      DeleteManagedResource(mActionProvidersMutex, mActionProviders, std::move(actionProvider));
+    }
+
     bool Bus::ContainsSubscriber(std::shared_ptr<bus::Subscriber> subscriber)
     {
       return ContainsManagedResource(mSubscribersMutex, mSubscribers, std::move(subscriber));
diff --git a/src/lamppost/plugin/PluginInstance.cpp b/src/lamppost/plugin/PluginInstance.cpp
index 6f9e214..593b794 100644
--- a/src/lamppost/plugin/PluginInstance.cpp
+++ b/src/lamppost/plugin/PluginInstance.cpp
@@ -32,6 +32,11 @@ namespace lp
     mConfiguration.mBus->DeletePublisher(publisher);
   }
 
+  void PluginInstance::DeleteActionProvider(std::shared_ptr<bus::ActionProvider> actionProvider)
+  {
+    mConfiguration.mBus->DeleteActionProvider(actionProvider);
+  }
+
   void PluginInstance::Start()
   {
     mShouldRun = true;
diff --git a/src/plugins/sysinfo/SysInfo.cpp b/src/plugins/sysinfo/SysInfo.cpp
index 403cd77..7588de5 100644
--- a/src/plugins/sysinfo/SysInfo.cpp
+++ b/src/plugins/sysinfo/SysInfo.cpp
@@ -65,6 +65,9 @@ namespace lp
 
       DeletePublisher(mSysInfoPublisher);
       mSysInfoPublisher = nullptr;
+
+      DeleteActionProvider(mSysInfoActionProvider);
+      mSysInfoActionProvider = nullptr;
     }
   } // namespace plugins
 } // namespace lp
-- 
2.43.0


From a24d07b68f033ec804e9c09d7fe83c732486093e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:11 +0000
Subject: [PATCH 19/35] fix: tolerate messages that are not text in the
 system-information plugin

---
 src/plugins/sysinfo/SysInfo.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/plugins/sysinfo/SysInfo.cpp b/src/plugins/sysinfo/SysInfo.cpp
index 7588de5..5649f31 100644
--- a/src/plugins/sysinfo/SysInfo.cpp
+++ b/src/plugins/sysinfo/SysInfo.cpp
@@ -21,8 +21,15 @@ namespace lp
         "/sysinfo",
         [this](messages::Datagram datagram)
         {
-          std::string message = datagram.Get<std::string>();
-          mLog.Info("Got it: " + message);
+          try
+          {
+            std::string message = datagram.Get<std::string>();
+            mLog.Info("Got it: " + message);
+          }
+          catch(const exceptions::Exception&)
+          {
+            mLog.Warning("Ignoring message that is not a text");
+          }
         });
 
       mSysInfoActionProvider = GetActionProvider(
-- 
2.43.0


From d53477841222471527eb6182ba080826834c4d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:02 +0000
Subject: [PATCH 20/35] fix: skip malformed plugin entries of configuration
 files

---
 src/lamppost/LampPost.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lamppost/LampPost.cpp b/src/lamppost/LampPost.cpp
index de6dd98..9f488a5 100644
--- a/src/lamppost/LampPost.cpp
+++ b/src/lamppost/LampPost.cpp
@@ -72,7 +72,7 @@ namespace lp
 
     messages::Datagram config = messages::Datagram::DeserializeFromJson(sts.str());
 
-    if(config.KeyExists("plugins"))
+    if(config.KeyExists("plugins") && config["plugins"].GetType() == messages::RawDatagramType::List)
     {
       int pluginsCount = config["plugins"].GetCount();
 
@@ -83,10 +83,11 @@ namespace lp
 
       for(int i = 0; i < pluginsCount; ++i)
       {
-        if(config["plugins"][i].KeyExists("type"))
-        {
-          std::string pluginType = config["plugins"][i]["type"];
+        // Entries without a textual type are skipped.
+        std::string pluginType = config["plugins"][i].Get<std::string>("type");
 
+        if(!pluginType.empty())
+        {
           PluginConfiguration pluginConfiguration;
           pluginConfiguration.mCustomConfiguration = config["plugins"][i]["configuration"];
 
-- 
2.43.0


From 06be2b70aa809e6c323d5c1b5643d0d4d1101a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:47 +0000
Subject: [PATCH 21/35] fix: report the instance stopped once it has shut down

---
 src/lamppost/LampPost.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamppost/LampPost.cpp b/src/lamppost/LampPost.cpp
index 9f488a5..52217f9 100644
--- a/src/lamppost/LampPost.cpp
+++ b/src/lamppost/LampPost.cpp
@@ -141,7 +141,7 @@ namespace lp
 
     mLog.Info("Shutdown complete.");
 
-    mRunState = RunState::Running;
+    mRunState = RunState::Stopped;
   }
 
   void LampPost::Stop()
-- 
2.43.0


From 2555509e90b7d62edda976be453602cdf093bbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:05 +0000
Subject: [PATCH 22/35] fix: stop requests during and after the shutdown are
 harmless

---
 src/lamppost/LampPost.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lamppost/LampPost.cpp b/src/lamppost/LampPost.cpp
index 52217f9..95329ac 100644
--- a/src/lamppost/LampPost.cpp
+++ b/src/lamppost/LampPost.cpp
@@ -41,8 +41,7 @@ namespace lp
     mRootBus->Detach();
     mPluginManager.UnloadTemplates();
 
-    mLog.Info("Disabling root bus", 1);
-    mRootBus = nullptr;
+    // The root bus stays: a stop request may still arrive while or after shutting down.
   }
 
   void LampPost::InstantiatePlugin(std::string identifier, PluginConfiguration pluginConfiguration)
-- 
2.43.0


From 41395a8b0ca8e1b3928dbcb3061bd77ef17ba06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:40 +0000
Subject: [PATCH 23/35] fix: stopping does not log, it may interrupt the
 writing of a log line

---
 src/lamppost/LampPost.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lamppost/LampPost.cpp b/src/lamppost/LampPost.cpp
index 95329ac..a01ec85 100644
--- a/src/lamppost/LampPost.cpp
+++ b/src/lamppost/LampPost.cpp
@@ -133,7 +133,7 @@ namespace lp
 
     mLog.Info("Starting root bus.");
     mRootBus->Start();
-    mLog.Info("Returned from running root bus.");
+    mLog.Info("Received stop signal, returned from running root bus.");
 
     mLog.Info("Shutting down");
     Teardown();
@@ -145,7 +145,7 @@ namespace lp
 
   void LampPost::Stop()
   {
-    mLog.Info("Received stop signal.");
+    // This may be called by a signal handler in the middle of writing a log line; do not log here.
     mRootBus->Stop();
   }
 
-- 
2.43.0


From 6dcb923fd8eca1ec126c8f8700c2098ae539f248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:18 +0000
Subject: [PATCH 24/35] fix: a signal before the instance exists neither
 crashes nor gets lost

---
 src/main.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 69b645e..e76520a 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -1,4 +1,5 @@
 // System includes
+#include <atomic>
 #include <cstdlib>
 #include <iostream>
 
@@ -9,11 +10,18 @@
 
 // Globals
 std::shared_ptr<lp::LampPost> lamppost = nullptr;
+std::atomic<bool> shutdownRequested(false);
 
 
 void HandleShutdownSignal()
 {
-  lamppost->Stop();
+  shutdownRequested = true;
+
+  // The signal may arrive before the instance exists.
+  if(lamppost != nullptr)
+  {
+    lamppost->Stop();
+  }
 }
 
 
@@ -35,6 +43,11 @@ int main(int argc, char** argv)
 
   lamppost = std::make_shared<lp::LampPost>(configuration);
 
+  if(shutdownRequested)
+  {
+    lamppost->Stop();
+  }
+
   try
   {
     lamppost->Start();
-- 
2.43.0


From 299435bc0526a3f4aa8da3304663116fb4e1f764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:26 +0000
Subject: [PATCH 25/35] fix: do not send a message over a link when its topic
 frame was not sent

---
 src/plugins/link/Link.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/plugins/link/Link.cpp b/src/plugins/link/Link.cpp
index 05463c8..d925cf3 100644
--- a/src/plugins/link/Link.cpp
+++ b/src/plugins/link/Link.cpp
@@ -252,8 +252,13 @@ namespace lp
       {
         std::memcpy(zmq_msg_data(&message), rawBytes->GetContent(), rawBytes->GetSize());
 
-        zmq_send(zmqSocket, "A", 1, ZMQ_SNDMORE);
-        int sendResult = zmq_msg_send(&message, zmqSocket, 0);
+        // Without its topic frame, the message must not be sent.
+        int sendResult = zmq_send(zmqSocket, "A", 1, ZMQ_SNDMORE);
+
+        if(sendResult > -1)
+        {
+          sendResult = zmq_msg_send(&message, zmqSocket, 0);
+        }
 
         if(sendResult == rawBytes->GetSize())
         {
-- 
2.43.0


From fbe091cc1956c422e6cc0cbfc139d06b6c05bb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:39 +0000
Subject: [PATCH 26/35] fix: drop network data that is not a message instead of
 ending the link's worker

---
 src/plugins/link/Link.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/plugins/link/Link.cpp b/src/plugins/link/Link.cpp
index d925cf3..dc7f707 100644
--- a/src/plugins/link/Link.cpp
+++ b/src/plugins/link/Link.cpp
@@ -233,8 +233,15 @@ namespace lp
 
         if(bytes->GetSize() > 0)
         {
-          receivedMessage = messages::Message::Deserialize(bytes);
-          successfullyReceivedMessage = true;
+          try
+          {
+            receivedMessage = messages::Message::Deserialize(bytes);
+            successfullyReceivedMessage = true;
+          }
+          catch(const exceptions::Exception& exception)
+          {
+            mLog.Warning("Dropping data that is not a message: " + std::string(exception.what()));
+          }
         }
       }
 
-- 
2.43.0


From 01302cf71b7883e7fdaab2beb1c4dd3d21b2d7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:14 +0000
Subject: [PATCH 27/35] fix: repeat the link's context termination when it was
 interrupted

---
 src/plugins/link/Link.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/plugins/link/Link.cpp b/src/plugins/link/Link.cpp
index dc7f707..3e53a93 100644
--- a/src/plugins/link/Link.cpp
+++ b/src/plugins/link/Link.cpp
@@ -1,5 +1,7 @@
 #include "Link.h"
 
+#include <cerrno>
+
 
 namespace lp
 {
@@ -328,7 +330,11 @@ namespace lp
         zmq_ctx_shutdown(mZmqContext);
 
         mLog.Info("Terminating ZMQ context.");
-        zmq_ctx_term(mZmqContext);
+
+        // Termination may be interrupted by a signal and has to be repeated then.
+        while(zmq_ctx_term(mZmqContext) != 0 && zmq_errno() == EINTR)
+        {
+        }
 
         mZmqContext = nullptr;
       }
-- 
2.43.0


From 163e404cf1b4ff8e6e150d3f175739d062229110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:11 +0000
Subject: [PATCH 28/35] fix: release the JSON parser and the parsed document

---
 src/lamppost/messages/RawDatagram.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lamppost/messages/RawDatagram.cpp b/src/lamppost/messages/RawDatagram.cpp
index 33b25e9..f1dddb4 100644
--- a/src/lamppost/messages/RawDatagram.cpp
+++ b/src/lamppost/messages/RawDatagram.cpp
@@ -439,6 +439,9 @@ namespace lp
         ParseJsonObject(jobj, rawDatagram);
       }
 
+      json_object_put(jobj);
+      json_tokener_free(tok);
+
       return rawDatagram;
     }
 
-- 
2.43.0


From 49deb4fb575c491dc1e42d4ef9c46dfa1060ae81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:11 +0000
Subject: [PATCH 29/35] fix: release subscribers' callbacks with their bus,
 they may own their action participants

---
 src/lamppost/bus/Bus.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/lamppost/bus/Bus.cpp b/src/lamppost/bus/Bus.cpp
index 9914dd1..e049042 100644
--- a/src/lamppost/bus/Bus.cpp
+++ b/src/lamppost/bus/Bus.cpp
@@ -60,6 +60,21 @@ namespace lp
         }
       }
 
+      {
+        // The callbacks of action participants own the participants, which in turn own the subscribers holding them.
+        std::list<std::shared_ptr<Subscriber>> subscribers;
+
+        {
+          std::lock_guard<std::mutex> lock(mSubscribersMutex);
+          subscribers.swap(mSubscribers);
+        }
+
+        for(const std::shared_ptr<Subscriber>& subscriber : subscribers)
+        {
+          subscriber->Reset();
+        }
+      }
+
       {
         std::lock_guard<std::mutex> lock(mChildBussesMutex);
         for(std::pair<std::string, std::shared_ptr<Bus>> busPair : mChildBusses)
-- 
2.43.0


From 3f5b3a70ab77cc00d65a57f35a8cf6471d5d62fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:11 +0000
Subject: [PATCH 30/35] fix: forget blocking action requests that timed out

---
 include/lamppost/bus/ActionConsumer.h |  2 ++
 src/lamppost/bus/ActionConsumer.cpp   | 22 ++++++++++++++++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/lamppost/bus/ActionConsumer.h b/include/lamppost/bus/ActionConsumer.h
index 462c7b4..e83ca6f 100644
--- a/include/lamppost/bus/ActionConsumer.h
+++ b/include/lamppost/bus/ActionConsumer.h
@@ -31,6 +31,8 @@ namespace lp
       std::mutex mOpenRequestsMutex;
       std::map<std::string, std::function<void(messages::Datagram)>> mOpenRequests;
 
+      std::string SendRequest(messages::Datagram request, std::function<void(messages::Datagram)> callback);
+
     public:
       ActionConsumer(std::shared_ptr<Subscriber> responseSubscriber, std::shared_ptr<Publisher> requestPublisher, std::string topic);
       ~ActionConsumer() = default;
diff --git a/src/lamppost/bus/ActionConsumer.cpp b/src/lamppost/bus/ActionConsumer.cpp
index 8b4d3ec..6b8bd81 100644
--- a/src/lamppost/bus/ActionConsumer.cpp
+++ b/src/lamppost/bus/ActionConsumer.cpp
@@ -28,6 +28,13 @@ namespace lp
         throw exceptions::ArgumentNullException("callback", "Callback may not be null.");
       }
 
+      SendRequest(request, callback);
+    }
+
+    std::string ActionConsumer::SendRequest(
+      messages::Datagram request,
+      std::function<void(messages::Datagram)> callback)
+    {
       utilities::Uuid uuid = utilities::Uuid::CreateUuid();
       std::string uuidString = static_cast<std::string>(uuid);
 
@@ -41,6 +48,8 @@ namespace lp
       wrappedRequest["request"] = request;
 
       mRequestPublisher->Publish(wrappedRequest);
+
+      return uuidString;
     }
 
     messages::Datagram ActionConsumer::Request(messages::Datagram request, int timeoutMs)
@@ -56,7 +65,7 @@ namespace lp
 
       std::shared_ptr<PendingResponse> pending = std::make_shared<PendingResponse>();
 
-      RequestAsync(
+      std::string invocationId = SendRequest(
         request,
         [pending](messages::Datagram internalResponse)
         {
@@ -76,7 +85,16 @@ namespace lp
                              return pending->received;
                            });
 
-      return pending->response;
+      messages::Datagram response = pending->response;
+      ul.unlock();
+
+      {
+        // Without a response, the request would stay open forever.
+        std::lock_guard<std::mutex> lock(mOpenRequestsMutex);
+        mOpenRequests.erase(invocationId);
+      }
+
+      return response;
     }
 
     void ActionConsumer::ProcessResponse(std::string invocationId, messages::Datagram response)
-- 
2.43.0


From 9e0510a4f9e454882ec0f14660fc272cdbe74b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:31 +0000
Subject: [PATCH 31/35] fix: join a plugin instance's previous worker before
 starting another

---
 src/lamppost/plugin/PluginInstance.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lamppost/plugin/PluginInstance.cpp b/src/lamppost/plugin/PluginInstance.cpp
index 593b794..13dd287 100644
--- a/src/lamppost/plugin/PluginInstance.cpp
+++ b/src/lamppost/plugin/PluginInstance.cpp
@@ -39,6 +39,9 @@ namespace lp
 
   void PluginInstance::Start()
   {
+    // A previous worker, which may have ended by itself, needs to be joined before it is replaced.
+    Stop();
+
     mShouldRun = true;
 
     std::thread workerThread(&PluginInstance::Run, this);
-- 
2.43.0


From 747fd60b38c1942c0f56131a71375942a008d1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:31 +0000
Subject: [PATCH 32/35] fix: copying a byte buffer copies its content

---
 include/lamppost/data/RawBytes.h |  4 ++++
 src/lamppost/data/RawBytes.cpp   | 21 +++++++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/include/lamppost/data/RawBytes.h b/include/lamppost/data/RawBytes.h
index 9e6f7cb..5b390c9 100644
--- a/include/lamppost/data/RawBytes.h
+++ b/include/lamppost/data/RawBytes.h
@@ -3,6 +3,7 @@
 
 
 #include <cstring>
+#include <utility>
 
 #include <lamppost/exceptions/ArgumentNullException.h>
 
@@ -20,8 +21,11 @@ namespace lp
     public:
       RawBytes();
       RawBytes(void* content, std::size_t size);
+      RawBytes(const RawBytes& rawBytes);
       ~RawBytes();
 
+      RawBytes& operator=(const RawBytes& rawBytes);
+
       const void* GetContent();
       std::size_t GetSize();
 
diff --git a/src/lamppost/data/RawBytes.cpp b/src/lamppost/data/RawBytes.cpp
index f63fb9e..771a790 100644
--- a/src/lamppost/data/RawBytes.cpp
+++ b/src/lamppost/data/RawBytes.cpp
@@ -23,6 +23,17 @@ namespace lp
       std::memcpy(mContent, content, size);
     }
 
+    RawBytes::RawBytes(const RawBytes& rawBytes)
+    : mContent(nullptr),
+      mSize(0)
+    {
+      // The buffer is owned by one object only.
+      if(rawBytes.mContent != nullptr)
+      {
+        Append(rawBytes.mContent, rawBytes.mSize);
+      }
+    }
+
     RawBytes::~RawBytes()
     {
       if(mContent != nullptr)
@@ -31,6 +42,16 @@ namespace lp
       }
     }
 
+    RawBytes& RawBytes::operator=(const RawBytes& rawBytes)
+    {
+      RawBytes copy(rawBytes);
+
+      std::swap(mContent, copy.mContent);
+      std::swap(mSize, copy.mSize);
+
+      return *this;
+    }
+
     const void* RawBytes::GetContent()
     {
       return mContent;
-- 
2.43.0


From 45ff1b2c730941dce4db84bdf575205322715b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:31 +0000
Subject: [PATCH 33/35] fix: report the path of the running executable in full

---
 include/lamppost/Filesystem.h |  1 +
 src/lamppost/Filesystem.cpp   | 11 ++++++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/lamppost/Filesystem.h b/include/lamppost/Filesystem.h
index 4e31cc9..0a798cd 100644
--- a/include/lamppost/Filesystem.h
+++ b/include/lamppost/Filesystem.h
@@ -6,6 +6,7 @@
 #include <iostream>
 #include <list>
 #include <string>
+#include <vector>
 
 #include <string.h>
 
diff --git a/src/lamppost/Filesystem.cpp b/src/lamppost/Filesystem.cpp
index 3dede9b..27ea7ef 100644
--- a/src/lamppost/Filesystem.cpp
+++ b/src/lamppost/Filesystem.cpp
@@ -139,11 +139,16 @@ namespace lp
     }
 #elif defined(__unix__) || defined(__linux__) || defined(__FreeBSD__) || defined(__APPLE__)
     std::string procExePath = "/proc/" + std::to_string(getpid()) + "/exe";
-    int bytes = std::min(static_cast<int>(readlink(procExePath.c_str(), static_cast<char*>(buffer), bufferLength)), bufferLength - 1);
+    std::vector<char> link(bufferLength);
+    ssize_t bytes;
+
+    // A path that fills the whole buffer may have been cut off.
+    while((bytes = readlink(procExePath.c_str(), link.data(), link.size())) == static_cast<ssize_t>(link.size())) {
+      link.resize(2 * link.size());
+    }
 
     if(bytes >= 0) {
-      buffer[bytes] = '\0';
-      path = static_cast<char*>(buffer);
+      path.assign(link.data(), bytes);
     }
 #endif
 
-- 
2.43.0


From 8243a4ccf562aac0ccb17630fa33a355d5be6d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:37 +0000
Subject: [PATCH 34/35] fix: allow a subscriber's callback to be set while
 messages are delivered

---
 include/lamppost/bus/Subscriber.h | 2 ++
 src/lamppost/bus/Subscriber.cpp   | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/include/lamppost/bus/Subscriber.h b/include/lamppost/bus/Subscriber.h
index b074913..e11955a 100644
--- a/include/lamppost/bus/Subscriber.h
+++ b/include/lamppost/bus/Subscriber.h
@@ -4,6 +4,7 @@
 
 #include <functional>
 #include <memory>
+#include <mutex>
 #include <string>
 #include <utility>
 
@@ -19,6 +20,7 @@ namespace lp
     {
     private:
       MessageCallbackType mCallback;
+      std::recursive_mutex mCallbackMutex;
 
     public:
       Subscriber(std::string topic);
diff --git a/src/lamppost/bus/Subscriber.cpp b/src/lamppost/bus/Subscriber.cpp
index ec00ad2..d0fcb1f 100644
--- a/src/lamppost/bus/Subscriber.cpp
+++ b/src/lamppost/bus/Subscriber.cpp
@@ -25,6 +25,9 @@ namespace lp
 
     void Subscriber::Receive(messages::Message message)
     {
+      // The callback may be set by another thread meanwhile.
+      std::lock_guard<std::recursive_mutex> lock(mCallbackMutex);
+
       if(mCallback != nullptr)
       {
         mCallback(message);
@@ -33,11 +36,13 @@ namespace lp
 
     void Subscriber::Reset()
     {
+      std::lock_guard<std::recursive_mutex> lock(mCallbackMutex);
       mCallback = nullptr;
     }
 
     void Subscriber::SetDatagramCallback(DatagramCallbackType callback)
     {
+      std::lock_guard<std::recursive_mutex> lock(mCallbackMutex);
       mCallback = [callback](lp::messages::Message message)
         {
           messages::Datagram datagram = message.GetDatagram();
@@ -49,6 +54,7 @@ namespace lp
 
     void Subscriber::SetMessageCallback(MessageCallbackType callback)
     {
+      std::lock_guard<std::recursive_mutex> lock(mCallbackMutex);
       mCallback = callback;
     }
 
-- 
2.43.0


From 56f7db7791eb4b2bf62a23111fd2bd419b002940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:37 +0000
Subject: [PATCH 35/35] fix: allow a publisher to be deleted while another
 thread uses it

---
 include/lamppost/bus/Publisher.h | 2 ++
 src/lamppost/bus/Publisher.cpp   | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/include/lamppost/bus/Publisher.h b/include/lamppost/bus/Publisher.h
index 10346c4..0693032 100644
--- a/include/lamppost/bus/Publisher.h
+++ b/include/lamppost/bus/Publisher.h
@@ -4,6 +4,7 @@
 
 #include <functional>
 #include <iostream>
+#include <mutex>
 #include <string>
 #include <utility>
 
@@ -20,6 +21,7 @@ namespace lp
     {
     private:
       DatagramCallbackType mPublishingFunction;
+      std::recursive_mutex mPublishingFunctionMutex;
 
     public:
       Publisher(std::string topic, DatagramCallbackType publishingFunction);
diff --git a/src/lamppost/bus/Publisher.cpp b/src/lamppost/bus/Publisher.cpp
index 27b2d2c..96255d7 100644
--- a/src/lamppost/bus/Publisher.cpp
+++ b/src/lamppost/bus/Publisher.cpp
@@ -19,6 +19,9 @@ namespace lp
 
     void Publisher::Publish(messages::Datagram datagram)
     {
+      // The publisher may be deleted by another thread meanwhile.
+      std::lock_guard<std::recursive_mutex> lock(mPublishingFunctionMutex);
+
       if(mPublishingFunction != nullptr)
       {
         mPublishingFunction(datagram);
@@ -27,6 +30,7 @@ namespace lp
 
     void Publisher::Reset()
     {
+      std::lock_guard<std::recursive_mutex> lock(mPublishingFunctionMutex);
       mPublishingFunction = nullptr;
     }
   } // namespace bus
-- 
2.43.0

