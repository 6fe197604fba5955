From 0e45c87fd59ca3db387ead6636661db9ac9a4cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:43 +0000
Subject: [PATCH 001/102] fix: let a failed link finish removing itself and
 close it

The receiver task cancelled itself while announcing the removal, so the
remaining (network) links were not told what disappeared; removing a link
twice also removed it twice from the trackers, and the failed link was never
closed, so its on_closed handlers did not run.
---
 streamtasks/net/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index 3c5ee23..8473ea5 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -196,7 +196,9 @@ class LinkManager:
   def has_link(self, link: Link): return link in self._link_recv_tasks
   def accept_link(self, link: Link, receiver_task: asyncio.Task): self._link_recv_tasks[link] = receiver_task
   def remove_link(self, link: Link):
-    if link in self._link_recv_tasks: self._link_recv_tasks.pop(link).cancel()
+    if link not in self._link_recv_tasks: return
+    task = self._link_recv_tasks.pop(link)
+    if task is not asyncio.current_task(): task.cancel() # the receiver task removes its own link and must be able to finish doing so
   def cancel_all(self):
     for task in self._link_recv_tasks.values(): task.cancel()
     self._link_recv_tasks.clear()
@@ -234,6 +236,7 @@ class Switch:
     self.link_manager.accept_link(link, asyncio.create_task(self._run_link_receiving(link)))
 
   async def remove_link(self, link: Link):
+    if not self.link_manager.has_link(link): return
     self.link_manager.remove_link(link)
 
     recv_topics = link.recv_topics
@@ -336,9 +339,10 @@ class Switch:
         message = await link.recv()
         await self.handle_message(message, link)
     except asyncio.CancelledError: pass
-    except ConnectionClosedError: pass
+    except ConnectionClosedError: link.close()
     except BaseException as e:
       logging.error(f"Error receiving from link: {e}")
+      link.close()
       raise e
     finally:
       await self.remove_link(link)
-- 
2.43.0


From 2f5862c3a37b8bbe11aaf35c6568b88a48137bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:44 +0000
Subject: [PATCH 002/102] fix: a link that fails while being sent to must not
 take down the sender's link

The error was raised in the receiver loop of the message's origin, which
removed the origin and skipped the remaining recipients.
---
 streamtasks/net/__init__.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index 8473ea5..34e3b8d 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -1,4 +1,4 @@
-from typing import Any, Callable, Union
+from typing import Any, Callable, Iterable, Union
 from streamtasks.env import DEBUG_SER
 from streamtasks.net.helpers import PricedIdTracker
 from streamtasks.net.serialization import RawData
@@ -254,8 +254,10 @@ class Switch:
       await self.broadcast(AddressesChangedMessage(updated_addresses, removed_addresses))
 
   def stop_receiving(self): self.link_manager.cancel_all()
-  async def send_to(self, message: Message, links: list[Link]):
-    for link in links: await link.send(message)
+  async def send_to(self, message: Message, links: Iterable[Link]):
+    for link in list(links):
+      try: await link.send(message)
+      except ConnectionClosedError: link.close() # must not affect the sender or the other links
   async def broadcast(self, message: Message): await self.send_to(message, self.link_manager.links)
 
   async def send_remove_in_topic(self, topic: int):
@@ -278,7 +280,7 @@ class Switch:
           if conn not in change_map: change_map[conn] = InTopicsChangedMessage(set(), set())
           for topic in remove_sub: change_map[conn].remove.add(topic)
 
-    for conn, message in change_map.items(): await conn.send(message)
+    for conn, message in change_map.items(): await self.send_to(message, [ conn ])
 
   async def on_in_topics_changed(self, message: InTopicsChangedMessage, origin: Link):
     # todo: control stream
@@ -286,7 +288,7 @@ class Switch:
     final_remove = self.in_topics.remove_many(message.remove)
 
     for control_message in [ self.stream_controls[topic].to_message(topic) for topic in message.add if topic in self.stream_controls ]:
-      await origin.send(control_message)
+      await self.send_to(control_message, [ origin ])
 
     await self.request_in_topics_change(final_add, final_remove)
 
@@ -294,7 +296,7 @@ class Switch:
     if message.address not in self.addresses: return
     address_cost = self.addresses.get(message.address)
     found_conn = next(( conn for conn in self.link_manager.links if conn.addresses.get(message.address, -1) == address_cost ), None)
-    if found_conn is not None: await found_conn.send(message)
+    if found_conn is not None: await self.send_to(message, [ found_conn ])
 
   async def on_stream_message(self, message: TopicMessage, origin: Link):
     await self.send_to(message, [ link for link in self.link_manager.links if link != origin and message.topic in link.in_topics])
-- 
2.43.0


From 4aceabec0d589b3d25cccfdcadc4ed740e008d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:54 +0000
Subject: [PATCH 003/102] fix: keep the requested topics in step with providers
 and subscribers

The link a topic is requested from is now decided from the current state right
before sending. Before, withdrawing a topic left it requested from a link which
no longer provides it (and the next provider raised a KeyError that removed its
link), a closed link's subscriptions were never dropped, and concurrent changes
could send an outdated subscribe or unsubscribe last.
---
 streamtasks/net/__init__.py | 46 ++++++++++++-------------------------
 1 file changed, 15 insertions(+), 31 deletions(-)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index 34e3b8d..0c1ad42 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -231,7 +231,7 @@ class Switch:
     if len(added_addresses) > 0: await self.broadcast(AddressesChangedMessage(added_addresses, set()))
 
     added_in_topics = self.in_topics.add_many(link.in_topics)
-    if len(added_in_topics) > 0: await self.request_in_topics_change(added_in_topics, set())
+    if len(added_in_topics) > 0: await self.update_requested_topics(added_in_topics)
 
     self.link_manager.accept_link(link, asyncio.create_task(self._run_link_receiving(link)))
 
@@ -239,12 +239,9 @@ class Switch:
     if not self.link_manager.has_link(link): return
     self.link_manager.remove_link(link)
 
-    recv_topics = link.recv_topics
     removed_topics, updated_topics = self.out_topics.remove_many(link.get_priced_out_topics())
-    updated_in_topics = recv_topics - removed_topics
-
-    if len(updated_in_topics) > 0:
-      await self.request_in_topics_change(set(updated_in_topics), set())
+    removed_in_topics = self.in_topics.remove_many(link.in_topics)
+    await self.update_requested_topics(removed_in_topics | link.recv_topics)
 
     if len(removed_topics) > 0 or len(updated_topics) > 0:
       await self.broadcast(OutTopicsChangedMessage(updated_topics, removed_topics))
@@ -263,24 +260,17 @@ class Switch:
   async def send_remove_in_topic(self, topic: int):
     await self.send_to(InTopicsChangedMessage(set(), set([topic])), [ conn for conn in self.link_manager.links if topic in conn.recv_topics ])
 
-  async def request_in_topics_change(self, add_topics: set[int], remove_topics: set[int]):
-    remove_topics_set = set(remove_topics)
-    change_map: dict[Link, InTopicsChangedMessage] = {}
-
-    for topic in add_topics:
-      best_link = min(self.link_manager.links, key=lambda link: link.out_topics.get(topic, float('inf')))
-      if topic not in best_link.out_topics: continue
-      if best_link not in change_map: change_map[best_link] = InTopicsChangedMessage(set(), set())
-      change_map[best_link].add.add(topic)
-
-    if len(remove_topics_set) > 0:
-      for conn in self.link_manager.links:
-        remove_sub = conn.recv_topics.intersection(remove_topics_set)
-        if len(remove_sub) > 0:
-          if conn not in change_map: change_map[conn] = InTopicsChangedMessage(set(), set())
-          for topic in remove_sub: change_map[conn].remove.add(topic)
+  def get_topic_provider(self, topic: int) -> Link | None:
+    providers = [ link for link in self.link_manager.links if topic in link.out_topics ]
+    return min(providers, key=lambda link: (link.out_topics[topic], topic not in link.recv_topics), default=None)
 
-    for conn, message in change_map.items(): await self.send_to(message, [ conn ])
+  async def update_requested_topics(self, topics: Iterable[int]):
+    topics = set(topics)
+    for link in list(self.link_manager.links):
+      # determined right before sending, since the state may change while sending to other links
+      requested = set(topic for topic in topics if topic in self.in_topics and self.get_topic_provider(topic) is link)
+      add, remove = requested - link.recv_topics, (topics - requested) & link.recv_topics
+      if len(add) > 0 or len(remove) > 0: await self.send_to(InTopicsChangedMessage(add, remove), [ link ])
 
   async def on_in_topics_changed(self, message: InTopicsChangedMessage, origin: Link):
     # todo: control stream
@@ -290,7 +280,7 @@ class Switch:
     for control_message in [ self.stream_controls[topic].to_message(topic) for topic in message.add if topic in self.stream_controls ]:
       await self.send_to(control_message, [ origin ])
 
-    await self.request_in_topics_change(final_add, final_remove)
+    await self.update_requested_topics(final_add | final_remove)
 
   async def on_addressed_message(self, message: AddressedMessage, origin: Link):
     if message.address not in self.addresses: return
@@ -306,13 +296,7 @@ class Switch:
     if len(out_topics_added) > 0 or len(out_topics_removed) > 0:
       await self.send_to(OutTopicsChangedMessage(out_topics_added, out_topics_removed), [ conn for conn in self.link_manager.links if conn != origin ])
 
-    resub_topics = set()
-    for pt in message.add:
-      if pt.id in self.in_topics:
-        topic_provider = next((conn for conn in self.link_manager.links if pt.id in conn.recv_topics), None)
-        if topic_provider is None or topic_provider.out_topics[pt.id] > pt.cost:
-          resub_topics.add(pt.id)
-    await self.request_in_topics_change(resub_topics, resub_topics) # resub to the better providers
+    await self.update_requested_topics(pt.id for pt in message.add | message.remove) # resub to the better providers
 
   async def on_addresses_changed(self, message: AddressesChangedRecvMessage, origin: Link):
     addresses_added, addresses_removed = self.addresses.change_many(message.add, message.remove)
-- 
2.43.0


From 463e182c56da388ff476090a03376c9d2c42644a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:36 +0000
Subject: [PATCH 004/102] fix: announce to each link exactly what can be
 reached through the others

A link used to be told about changes of the overall best cost only, computed
before sending to earlier links: a second provider was never announced to the
side of the first one, a provider's own route was announced back to it, links
added while an announcement was being sent missed it, and re-announcing an id
with another cost left the old cost in the trackers for good. A topic or
address that moved could therefore stay unreachable from parts of the network.
---
 streamtasks/net/__init__.py | 77 ++++++++++++++++++++++---------------
 1 file changed, 45 insertions(+), 32 deletions(-)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index 0c1ad42..460e7c9 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -5,6 +5,7 @@ from streamtasks.net.serialization import RawData
 from streamtasks.net.serialization import serialize_message, deserialize_message
 from streamtasks.utils import IdTracker
 from abc import ABC, abstractmethod
+from itertools import chain
 import logging
 import asyncio
 
@@ -35,6 +36,8 @@ class Link(ABC):
     self.recv_topics: set[int] = set()
     self.out_topics: dict[int, int] = dict()
     self.addresses: dict[int, int] = dict()
+    self.announced_out_topics: dict[int, int] = dict()
+    self.announced_addresses: dict[int, int] = dict()
     self.on_closed: list[Callable[[], Any]] = []
 
     self._closed = False
@@ -79,9 +82,13 @@ class Link(ABC):
     elif isinstance(message, OutTopicsChangedMessage):
       otc_message: OutTopicsChangedMessage = message
       message = OutTopicsChangedMessage(set(PricedId(pt.id, pt.cost) for pt in otc_message.add), otc_message.remove)
+      for topic in message.remove: self.announced_out_topics.pop(topic, None)
+      for pt in message.add: self.announced_out_topics[pt.id] = pt.cost
     elif isinstance(message, AddressesChangedMessage):
       ac_message: AddressesChangedMessage = message
       message = AddressesChangedMessage(set(PricedId(pa.id, pa.cost) for pa in ac_message.add), ac_message.remove)
+      for address in message.remove: self.announced_addresses.pop(address, None)
+      for pa in message.add: self.announced_addresses[pa.id] = pa.cost
     await self._send(message)
 
   async def recv(self) -> Message:
@@ -118,7 +125,7 @@ class Link(ABC):
       otc_message: OutTopicsChangedMessage = message
       message = OutTopicsChangedRecvMessage(
         set(PricedId(pt.id, pt.cost + self._cost) for pt in otc_message.add),
-        set(PricedId(t, self.out_topics[t]) for t in otc_message.remove if t in self.out_topics))
+        self.get_priced_out_topics(otc_message.remove.union(pt.id for pt in otc_message.add)))
       for address in otc_message.remove: self.out_topics.pop(address, None)
       for pt in message.add: self.out_topics[pt.id] = pt.cost
 
@@ -126,7 +133,7 @@ class Link(ABC):
       ac_message: AddressesChangedMessage = message
       message = AddressesChangedRecvMessage(
         set(PricedId(pa.id, pa.cost + self._cost) for pa in ac_message.add),
-        set(PricedId(a, self.addresses[a]) for a in ac_message.remove if a in self.addresses))
+        self.get_priced_addresses(ac_message.remove.union(pa.id for pa in ac_message.add)))
       for address in ac_message.remove: self.addresses.pop(address, None)
       for pa in message.add: self.addresses[pa.id] = pa.cost
 
@@ -218,37 +225,26 @@ class Switch:
     await self.add_link(a)
     return b
   async def add_link(self, link: Link):
-    switch_out_topics = set(self.out_topics.items())
-    if len(switch_out_topics) > 0: await link.send(OutTopicsChangedMessage(switch_out_topics, set()))
-
-    switch_addresses = set(self.addresses.items())
-    if len(switch_addresses) > 0: await link.send(AddressesChangedMessage(switch_addresses, set()))
-
-    added_out_topics = self.out_topics.add_many(link.get_priced_out_topics())
-    if len(added_out_topics) > 0: await self.broadcast(OutTopicsChangedMessage(added_out_topics, set()))
-
-    added_addresses = self.addresses.add_many(link.get_priced_addresses())
-    if len(added_addresses) > 0: await self.broadcast(AddressesChangedMessage(added_addresses, set()))
-
+    self.out_topics.add_many(link.get_priced_out_topics())
+    self.addresses.add_many(link.get_priced_addresses())
     added_in_topics = self.in_topics.add_many(link.in_topics)
-    if len(added_in_topics) > 0: await self.update_requested_topics(added_in_topics)
-
     self.link_manager.accept_link(link, asyncio.create_task(self._run_link_receiving(link)))
 
+    await self.announce_out_topics(pt.id for pt in self.out_topics.items())
+    await self.announce_addresses(pa.id for pa in self.addresses.items())
+    await self.update_requested_topics(chain(added_in_topics, link.out_topics.keys()))
+
   async def remove_link(self, link: Link):
     if not self.link_manager.has_link(link): return
     self.link_manager.remove_link(link)
 
-    removed_topics, updated_topics = self.out_topics.remove_many(link.get_priced_out_topics())
+    self.out_topics.remove_many(link.get_priced_out_topics())
+    self.addresses.remove_many(link.get_priced_addresses())
     removed_in_topics = self.in_topics.remove_many(link.in_topics)
-    await self.update_requested_topics(removed_in_topics | link.recv_topics)
-
-    if len(removed_topics) > 0 or len(updated_topics) > 0:
-      await self.broadcast(OutTopicsChangedMessage(updated_topics, removed_topics))
 
-    removed_addresses, updated_addresses = self.addresses.remove_many(link.get_priced_addresses())
-    if len(removed_addresses) > 0 or len(updated_addresses) > 0:
-      await self.broadcast(AddressesChangedMessage(updated_addresses, removed_addresses))
+    await self.update_requested_topics(removed_in_topics | link.recv_topics)
+    await self.announce_out_topics(link.out_topics.keys())
+    await self.announce_addresses(link.addresses.keys())
 
   def stop_receiving(self): self.link_manager.cancel_all()
   async def send_to(self, message: Message, links: Iterable[Link]):
@@ -257,6 +253,25 @@ class Switch:
       except ConnectionClosedError: link.close() # must not affect the sender or the other links
   async def broadcast(self, message: Message): await self.send_to(message, self.link_manager.links)
 
+  async def announce_out_topics(self, topics: Iterable[int]):
+    topics = set(topics)
+    for link in list(self.link_manager.links):
+      add, remove = self._get_announcement(topics, [ l.out_topics for l in self.link_manager.links if l is not link ], link.announced_out_topics)
+      if len(add) > 0 or len(remove) > 0: await self.send_to(OutTopicsChangedMessage(add, remove), [ link ])
+
+  async def announce_addresses(self, addresses: Iterable[int]):
+    addresses = set(addresses)
+    for link in list(self.link_manager.links):
+      add, remove = self._get_announcement(addresses, [ l.addresses for l in self.link_manager.links if l is not link ], link.announced_addresses)
+      if len(add) > 0 or len(remove) > 0: await self.send_to(AddressesChangedMessage(add, remove), [ link ])
+
+  def _get_announcement(self, ids: set[int], reachable: list[dict[int, int]], announced: dict[int, int]) -> tuple[set[PricedId], set[int]]:
+    # a link is only told what can be reached through the other links, never what it announced itself
+    costs = { id: min((costs[id] for costs in reachable if id in costs), default=None) for id in ids }
+    add = set(PricedId(id, cost) for id, cost in costs.items() if cost is not None and announced.get(id, None) != cost)
+    remove = set(id for id, cost in costs.items() if cost is None and id in announced)
+    return add, remove
+
   async def send_remove_in_topic(self, topic: int):
     await self.send_to(InTopicsChangedMessage(set(), set([topic])), [ conn for conn in self.link_manager.links if topic in conn.recv_topics ])
 
@@ -292,16 +307,14 @@ class Switch:
     await self.send_to(message, [ link for link in self.link_manager.links if link != origin and message.topic in link.in_topics])
 
   async def on_out_topics_changed(self, message: OutTopicsChangedRecvMessage, origin: Link):
-    out_topics_added, out_topics_removed = self.out_topics.change_many(message.add, message.remove)
-    if len(out_topics_added) > 0 or len(out_topics_removed) > 0:
-      await self.send_to(OutTopicsChangedMessage(out_topics_added, out_topics_removed), [ conn for conn in self.link_manager.links if conn != origin ])
-
-    await self.update_requested_topics(pt.id for pt in message.add | message.remove) # resub to the better providers
+    changed = set(pt.id for pt in message.add | message.remove)
+    self.out_topics.change_many(message.add, message.remove)
+    await self.announce_out_topics(changed)
+    await self.update_requested_topics(changed) # resub to the better providers
 
   async def on_addresses_changed(self, message: AddressesChangedRecvMessage, origin: Link):
-    addresses_added, addresses_removed = self.addresses.change_many(message.add, message.remove)
-    if len(addresses_added) > 0 or len(addresses_removed) > 0:
-      await self.send_to(AddressesChangedMessage(addresses_added, addresses_removed), [ conn for conn in self.link_manager.links if conn != origin ])
+    self.addresses.change_many(message.add, message.remove)
+    await self.announce_addresses(set(pa.id for pa in message.add | message.remove))
 
   async def handle_message(self, message: Message, origin: Link):
     if isinstance(message, TopicMessage):
-- 
2.43.0


From 79fd3c2991670cdc03be2ffefbf8e17a252bb568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:46 +0000
Subject: [PATCH 005/102] fix: keep receiving when a receiver is enabled while
 the last one is being disabled

---
 streamtasks/client/__init__.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/streamtasks/client/__init__.py b/streamtasks/client/__init__.py
index d88d5dd..e719fc0 100644
--- a/streamtasks/client/__init__.py
+++ b/streamtasks/client/__init__.py
@@ -114,7 +114,7 @@ class Client:
 
   async def enable_receiver(self, receiver: Receiver):
     self._receivers.append(receiver)
-    self._receive_task = self._receive_task or asyncio.create_task(self._task_receive())
+    if self._receive_task is None: self._start_receiving()
   async def disable_receiver(self, receiver: Receiver):
     self._receivers.remove(receiver)
     if len(self._receivers) == 0 and self._receive_task is not None:
@@ -122,6 +122,14 @@ class Client:
       try: await self._receive_task
       except asyncio.CancelledError: pass
 
+  def _start_receiving(self):
+    self._receive_task = asyncio.create_task(self._task_receive())
+    self._receive_task.add_done_callback(self._on_receive_task_done)
+  def _on_receive_task_done(self, task: asyncio.Task):
+    self._receive_task = None
+    # a receiver may have been enabled while the task was being cancelled
+    if task.cancelled() and len(self._receivers) > 0 and self._started_event.is_set(): self._start_receiving()
+
   def set_address_name(self, name: str, address: Optional[int]):
     if address is None: self._address_resolver_cache.pop(name, None)
     else: self._address_resolver_cache[name] = address
@@ -129,14 +137,11 @@ class Client:
   async def _get_address(self, address: Union[int, str]) -> int: return await self.resolve_address_name(address) if isinstance(address, str) else address
 
   async def _task_receive(self):
-    try:
-      while len(self._receivers) > 0:
-        await self._started_event.wait()
-        message = await self._link.recv()
-        await self._started_event.wait()
-        if isinstance(message, InTopicsChangedMessage): self._subscribed_provided_topics.change_many(message.add, message.remove)
-        if isinstance(message, TopicMessage) and message.topic not in self._in_topics: continue
-        for receiver in self._receivers:
-          receiver.on_message(message)
-    finally:
-      self._receive_task = None
+    while True:
+      await self._started_event.wait()
+      message = await self._link.recv()
+      await self._started_event.wait()
+      if isinstance(message, InTopicsChangedMessage): self._subscribed_provided_topics.change_many(message.add, message.remove)
+      if isinstance(message, TopicMessage) and message.topic not in self._in_topics: continue
+      for receiver in self._receivers:
+        receiver.on_message(message)
-- 
2.43.0


From f15d65202ae31379c65dcff2ebdec950aede2aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:08 +0000
Subject: [PATCH 006/102] fix: replay the current pause state to a new
 subscriber, not one read earlier

---
 streamtasks/net/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index 460e7c9..372669c 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -292,8 +292,8 @@ class Switch:
     final_add = self.in_topics.add_many(message.add)
     final_remove = self.in_topics.remove_many(message.remove)
 
-    for control_message in [ self.stream_controls[topic].to_message(topic) for topic in message.add if topic in self.stream_controls ]:
-      await self.send_to(control_message, [ origin ])
+    for topic in message.add: # determined right before sending, since the state may change while sending
+      if topic in self.stream_controls: await self.send_to(self.stream_controls[topic].to_message(topic), [ origin ])
 
     await self.update_requested_topics(final_add | final_remove)
 
-- 
2.43.0


From 3065d82ae99c3fe0ac6e4ba4a1ba4950246cacae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:10 +0000
Subject: [PATCH 007/102] fix: find a frame whose sync word directly follows
 its own first byte

---
 streamtasks/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/connection.py b/streamtasks/connection.py
index 8b979fa..99e8aa9 100644
--- a/streamtasks/connection.py
+++ b/streamtasks/connection.py
@@ -158,7 +158,7 @@ class RawStreamConnection(RawConnection):
     while sync_index < len(RawStreamConnection.SYNC_WORD):
       next_byte = await self._reader.readexactly(1)
       if RawStreamConnection.SYNC_WORD[sync_index] == next_byte[0]: sync_index += 1
-      else: sync_index = 0
+      else: sync_index = int(RawStreamConnection.SYNC_WORD[0] == next_byte[0])
     data_len, = struct.unpack("<L", await self._reader.readexactly(4))
     return await self._reader.readexactly(data_len)
 
-- 
2.43.0


From 573976c0935109556e799abbe755caefd734fdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:34 +0000
Subject: [PATCH 008/102] fix: a cancelled receive must not leave a second
 reader on the connection

---
 streamtasks/connection.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/streamtasks/connection.py b/streamtasks/connection.py
index 99e8aa9..c2c1d00 100644
--- a/streamtasks/connection.py
+++ b/streamtasks/connection.py
@@ -86,6 +86,7 @@ class RawConnection(ABC):
     super().__init__()
     self._send_lock = asyncio.Lock()
     self._recv_lock = asyncio.Lock()
+    self._recv_task: asyncio.Task[bytes] | None = None
 
   async def init_client(self, extra_data: dict):
     try:
@@ -120,7 +121,11 @@ class RawConnection(ABC):
       await asyncio.shield(self._send(data))
   async def recv(self):
     async with self._recv_lock:
-      return await asyncio.shield(self._recv())
+      # when cancelled, the read goes on and the next call continues with it
+      if self._recv_task is None: self._recv_task = asyncio.create_task(self._recv())
+      await asyncio.wait([ self._recv_task ])
+      task, self._recv_task = self._recv_task, None
+      return task.result()
 
   @abstractmethod
   async def _send(self, data: bytes): pass
-- 
2.43.0


From 46a1731e71e4f7a7e81101d1fc834f905365dc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:20 +0000
Subject: [PATCH 009/102] fix: check the secret of every connection, not only
 of the first

---
 streamtasks/connection.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streamtasks/connection.py b/streamtasks/connection.py
index c2c1d00..2f0790a 100644
--- a/streamtasks/connection.py
+++ b/streamtasks/connection.py
@@ -104,6 +104,7 @@ class RawConnection(ABC):
     try:
       client_data = msgpack.unpackb(await self.recv())
       if not isinstance(client_data, dict): raise ValueError()
+      extra_data = { **extra_data } # shared by all connections of the server
       server_auth = extra_data.pop("auth", None)
       client_auth = client_data.get("auth", None)
       accepted = client_data.get("version", None) == _get_version_specifier() and client_auth == server_auth
-- 
2.43.0


From 611405e46591b5fe6c8a5adea806a412069a415d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:03 +0000
Subject: [PATCH 010/102] fix: reconnect after every kind of failure, and only
 after the delay

---
 streamtasks/connection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/streamtasks/connection.py b/streamtasks/connection.py
index 2f0790a..07fd454 100644
--- a/streamtasks/connection.py
+++ b/streamtasks/connection.py
@@ -74,9 +74,9 @@ class AutoReconnector(Worker):
           link.on_closed.append(functools.partial(self._async_connected.set, False))
           if link.closed: self._async_connected.set(False) # in case it closed already
           await self._async_connected.wait(False)
-          await asyncio.wait(self.delay)
-          logging.info("reconnecting")
-        except (ConnectionClosedError, ConnectionError): pass
+        except Exception as e: logging.info(f"failed to connect: {e}")
+        await asyncio.sleep(self.delay)
+        logging.info("reconnecting")
     finally: await self.shutdown()
 
   async def wait_connected(self, connected: bool = True): await self._async_connected.wait(connected)
-- 
2.43.0


From 46d7ff69cd8e60a9b0c19219adfd2799a7fd1207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:28 +0000
Subject: [PATCH 011/102] fix: a worker that shuts down disconnects its links

---
 streamtasks/net/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index 372669c..3a2aa01 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -246,7 +246,9 @@ class Switch:
     await self.announce_out_topics(link.out_topics.keys())
     await self.announce_addresses(link.addresses.keys())
 
-  def stop_receiving(self): self.link_manager.cancel_all()
+  def stop_receiving(self):
+    for link in list(self.link_manager.links): link.close() # the other ends must learn that nobody is receiving anymore
+    self.link_manager.cancel_all()
   async def send_to(self, message: Message, links: Iterable[Link]):
     for link in list(links):
       try: await link.send(message)
-- 
2.43.0


From f5466353740243daaa170bd5c42531a72091783c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:24 +0000
Subject: [PATCH 012/102] fix: reject negative counts of addresses and topic
 ids

A negative count moved the counter back, so the next ids were handed out twice.
---
 streamtasks/client/discovery.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/streamtasks/client/discovery.py b/streamtasks/client/discovery.py
index c401ce6..9638b18 100644
--- a/streamtasks/client/discovery.py
+++ b/streamtasks/client/discovery.py
@@ -1,7 +1,7 @@
 from contextlib import asynccontextmanager
 import secrets
 from typing import TYPE_CHECKING, Optional
-from pydantic import BaseModel, ValidationError, field_validator
+from pydantic import BaseModel, NonNegativeInt, ValidationError, field_validator
 from streamtasks.client.broadcast import BroadcastReceiver
 from streamtasks.client.receiver import Receiver
 from streamtasks.client.signal import send_signal
@@ -48,7 +48,7 @@ class TopicSpaceResponseMessage(BaseModel):
   topic_id_map: list[tuple[int, int]]
 
 class GenerateAddressesRequestMessageBase(BaseModel):
-  count: int
+  count: NonNegativeInt
 
 class GenerateAddressesRequestMessage(GenerateAddressesRequestMessageBase):
   request_id: int
@@ -60,7 +60,7 @@ class GenerateAddressesResponseMessage(GenerateAddressesResponseMessageBase):
   request_id: int
 
 class GenerateTopicsRequestBody(BaseModel):
-  count: int
+  count: NonNegativeInt
 
 
 class GenerateTopicsResponseBody(BaseModel):
-- 
2.43.0


From 4eb9937c762ef7332f7b338134785749a5583bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:23 +0000
Subject: [PATCH 013/102] fix: a receiver cancelled while starting or stopping
 leaves nothing behind

The receiver stayed enabled, or its topics stayed subscribed.
---
 streamtasks/client/receiver.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/streamtasks/client/receiver.py b/streamtasks/client/receiver.py
index 778c64e..485bafe 100644
--- a/streamtasks/client/receiver.py
+++ b/streamtasks/client/receiver.py
@@ -22,16 +22,25 @@ class Receiver(ABC, Generic[T]):
   async def start_recv(self):
     self._receiving_count += 1
     if self._receiving_count > 1: return
-    await self._client.enable_receiver(self)
-    await asyncio.sleep(0)
-    await self._on_start_recv()
+    enabled = False
+    try:
+      await self._client.enable_receiver(self)
+      await asyncio.sleep(0)
+      enabled = True
+      await self._on_start_recv()
+    except BaseException: # whoever failed to start it will not stop it
+      self._receiving_count -= 1
+      await self._client.disable_receiver(self)
+      if enabled: await self._on_stop_recv()
+      raise
 
   async def stop_recv(self):
     self._receiving_count = max(0, self._receiving_count - 1)
     if self._receiving_count > 0: return
-    await self._client.disable_receiver(self)
-    await asyncio.sleep(0)
-    await self._on_stop_recv()
+    try:
+      await self._client.disable_receiver(self)
+      await asyncio.sleep(0)
+    finally: await self._on_stop_recv()
 
   def empty(self): return self._recv_queue.empty()
   async def get(self): return await self._recv_queue.get()
-- 
2.43.0


From 2c27a393754d6ad513d3453b0c0dc74237132cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:53 +0000
Subject: [PATCH 014/102] fix: withdrawing an address name must not remove
 another client's registration

Also forget the name in the own cache instead of caching it again.
---
 streamtasks/client/discovery.py   | 5 +++--
 streamtasks/services/discovery.py | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/streamtasks/client/discovery.py b/streamtasks/client/discovery.py
index 9638b18..a8325d1 100644
--- a/streamtasks/client/discovery.py
+++ b/streamtasks/client/discovery.py
@@ -76,6 +76,7 @@ class ResolveAddressResonseBody(BaseModel):
 
 class UnregisterAddressNameMessage(BaseModel):
   address_name: str
+  address: Optional[int] = None
 
   @field_validator("address_name")
   @classmethod
@@ -168,8 +169,8 @@ async def address_name_context(client: 'Client', name: str, address: int | None
     client.set_address_name(name, address)
     yield
   finally:
-    await send_signal(client, NetworkAddresses.ID_DISCOVERY, DiscoveryConstants.SD_UNREGISTER_ADDRESS_NAME, UnregisterAddressNameMessage(address_name=name).model_dump())
-    client.set_address_name(name, address)
+    await send_signal(client, NetworkAddresses.ID_DISCOVERY, DiscoveryConstants.SD_UNREGISTER_ADDRESS_NAME, UnregisterAddressNameMessage(address_name=name, address=address).model_dump())
+    client.set_address_name(name, None)
 
 async def wait_for_topic_signal(client: 'Client', topic: int): return await TopicSignalReceiver(client, topic).wait()
 
diff --git a/streamtasks/services/discovery.py b/streamtasks/services/discovery.py
index 73b51bb..991aecf 100644
--- a/streamtasks/services/discovery.py
+++ b/streamtasks/services/discovery.py
@@ -136,7 +136,8 @@ class DiscoveryWorker(Worker):
     async def _(message_data: Any):
       request = UnregisterAddressNameMessage.model_validate(message_data)
       logging.info(f"unregistering address name {request.address_name}")
-      self._address_map.pop(request.address_name, None)
+      if request.address is None or request.address == self._address_map.get(request.address_name, None): # may belong to someone else by now
+        self._address_map.pop(request.address_name, None)
 
     await signal_server.run()
 
-- 
2.43.0


From 4a26e7d1ae18fe23506eabbe0f9cbddd8b7fdb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:59 +0000
Subject: [PATCH 015/102] fix: a topic counts as busy with a timestamp until it
 receives again

The identity test never matched, so priorities between topics with equal timestamps were not kept.
---
 streamtasks/client/topic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/client/topic.py b/streamtasks/client/topic.py
index 1a6e043..1d45540 100644
--- a/streamtasks/client/topic.py
+++ b/streamtasks/client/topic.py
@@ -146,7 +146,7 @@ class PrioritizedSequentialInTopicSynchronizer(SequentialInTopicSynchronizer):
     self._done_topics = set()
 
   async def wait_for(self, topic_id: int, timestamp: int) -> bool:
-    if topic_id is self._done_topics: self._done_topics.remove(topic_id)
+    self._done_topics.discard(topic_id)
     return await super().wait_for(topic_id, timestamp)
 
   def start_receive(self, topic_id: int):
-- 
2.43.0


From f2e4d62b1dfd86699d50b080c1334166ea38d113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:13 +0000
Subject: [PATCH 016/102] fix: request topics elsewhere when the link chosen
 for them closes before it is told

---
 streamtasks/net/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index 3a2aa01..c052355 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -242,7 +242,7 @@ class Switch:
     self.addresses.remove_many(link.get_priced_addresses())
     removed_in_topics = self.in_topics.remove_many(link.in_topics)
 
-    await self.update_requested_topics(removed_in_topics | link.recv_topics)
+    await self.update_requested_topics(chain(removed_in_topics, link.recv_topics, link.out_topics.keys())) # it may have been chosen for a topic without being told
     await self.announce_out_topics(link.out_topics.keys())
     await self.announce_addresses(link.addresses.keys())
 
-- 
2.43.0


From 09e4444b8f813539dfbc50353d7db37dd68dfb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:24 +0000
Subject: [PATCH 017/102] fix: a task is started only once

---
 streamtasks/system/task.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index a2e884c..963c609 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -368,6 +368,7 @@ class TaskManager(Worker):
       try:
         body = TMTaskStartRequest.model_validate(req.body)
         task_instance = self.tasks[body.id]
+        if task_instance.status is not TaskStatus.scheduled: return await req.respond_error(new_fetch_body_bad_request("Task was started already!"))
         task_host = self.task_hosts[task_instance.host_id]
 
         task_start_request = TaskStartRequest(
-- 
2.43.0


From 40d0f0e3b580e2691031c08c174c20484cb1e85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:24 +0000
Subject: [PATCH 018/102] fix: a task that ended before its start was answered
 is not running

---
 streamtasks/system/task.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index 963c609..bd3a31b 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -382,10 +382,11 @@ class TaskManager(Worker):
         task_start_result: TaskStartResponse = TaskStartResponse.model_validate(task_start_result)
 
         task_instance.metadata=task_start_result.metadata
-        task_instance.error=task_start_result.error
-        task_instance.status=TaskStatus.running if task_start_result.error is None else TaskStatus.failed
-
-        if task_instance.status == TaskStatus.failed: self.tasks.pop(task_instance.id)
+        if task_start_result.error is not None:
+          task_instance.error=task_start_result.error
+          task_instance.status=TaskStatus.failed
+          self.tasks.pop(task_instance.id)
+        elif task_instance.status is TaskStatus.scheduled: task_instance.status=TaskStatus.running # its end may have been reported already
 
         await req.respond(task_instance.model_dump())
       except KeyError as e: await req.respond_error(new_fetch_body_not_found(str(e)))
-- 
2.43.0


From 868441cf1187602da3bfc5c64ebb880b06ed2742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:24 +0000
Subject: [PATCH 019/102] fix: a task that was not started yet can be cancelled

---
 streamtasks/system/task.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index bd3a31b..cc8071f 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -397,6 +397,11 @@ class TaskManager(Worker):
       try:
         body = TMTaskRequestBase.model_validate(req.body)
         task_inst = self.tasks[body.id]
+        if task_inst.status is TaskStatus.scheduled: # the host does not know it yet
+          self.tasks.pop(task_inst.id)
+          task_inst.status = TaskStatus.stopped
+          await self.bc_server.broadcast(get_namespace_by_task_id(task_inst.id), RawData(task_inst.model_dump()))
+          return await req.respond("OK")
         task_host = self.task_hosts[task_inst.host_id]
         tc_req = TaskCancelRequest(id=task_inst.id)
         task_cancel_result = await self.client.fetch(task_host.address, TaskConstants.FD_TASK_CANCEL, tc_req.model_dump())
-- 
2.43.0


From 753b4d788cc9c97f0b829702563b92ae2c19b34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:32 +0000
Subject: [PATCH 020/102] fix: a task host that shuts down stops its tasks
 before it unregisters

---
 streamtasks/system/task.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index cc8071f..0232f38 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -213,9 +213,11 @@ class TaskHost(Worker):
         logging.debug("Failed to register task host!", e, traceback.format_exc())
       raise e
     finally:
-      shutdown_tasks: list[asyncio.Task] = list(self.tasks) + [ asyncio.create_task(self.unregister(ep)) for ep in self._registered_at_endpoints ]
-      for task in self.tasks.values(): task.cancel()
-      if len(shutdown_tasks) > 0: await asyncio.wait(shutdown_tasks, timeout=1) # NOTE: make configurable
+      running_tasks = list(self.tasks.values())
+      for task in running_tasks: task.cancel()
+      if len(running_tasks) > 0: await asyncio.wait(running_tasks, timeout=1) # NOTE: make configurable
+      unregister_tasks = [ asyncio.create_task(self.unregister(ep)) for ep in self._registered_at_endpoints ]
+      if len(unregister_tasks) > 0: await asyncio.wait(unregister_tasks, timeout=1) # NOTE: make configurable
       await self.shutdown()
       self.ready.clear()
 
-- 
2.43.0


From 61b31f3bc51c841d3a31de1910c36fbfb476593d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:32 +0000
Subject: [PATCH 021/102] fix: task host ids are strings, not UUIDs, when a
 host unregisters

---
 streamtasks/system/task.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index 0232f38..74bd24c 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -422,9 +422,9 @@ class TaskHostRegisteredReceiver(BroadcastReceiver[TaskHostRegistration]):
   def transform_data(self, _: str, data: RawData) -> TaskInstance:
     return TaskHostRegistration.model_validate(data.data)
 
-class TaskHostUnregisteredReceiver(BroadcastReceiver[ModelWithId]):
-  def transform_data(self, _: str, data: RawData) -> ModelWithId:
-    return ModelWithId.model_validate(data.data)
+class TaskHostUnregisteredReceiver(BroadcastReceiver[ModelWithStrId]):
+  def transform_data(self, _: str, data: RawData) -> ModelWithStrId:
+    return ModelWithStrId.model_validate(data.data)
 
 class TaskManagerClient:
   def __init__(self, client: Client, address_name: str = NetworkAddressNames.TASK_MANAGER) -> None:
-- 
2.43.0


From 30cdf55bc31f4be97bd149bbea8333a4f622f0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:02 +0000
Subject: [PATCH 022/102] fix: path registration ids are strings, not UUIDs,
 when a path is unregistered

---
 streamtasks/system/task_web.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index 6c7c817..1c12630 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -240,7 +240,7 @@ class TaskWebBackend(Worker):
 
     @server.route(TaskConstants.SD_TMW_UNREGISTER_PATH)
     async def _(message_data: Any):
-      data = ModelWithId.model_validate(message_data)
+      data = ModelWithStrId.model_validate(message_data)
       self.path_registrations = [ reg for reg in self.path_registrations if reg.id != data.id]
 
     await server.run()
-- 
2.43.0


From 57f02104e1fbc270b8b86542017e1cb2b0a3d957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:17 +0000
Subject: [PATCH 023/102] fix: a task host waits for the task manager's name
 before it registers

---
 streamtasks/system/task.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index 74bd24c..beb28c3 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -11,7 +11,7 @@ from streamtasks.asgiserver import ASGIRouter, ASGIServer
 from streamtasks.client import Client
 import asyncio
 from streamtasks.client.broadcast import BroadcastReceiver, BroadcastingServer
-from streamtasks.client.discovery import address_name_context, get_topic_space, wait_for_topic_signal
+from streamtasks.client.discovery import address_name_context, get_topic_space, wait_for_address_name, wait_for_topic_signal
 from streamtasks.client.fetch import FetchError, FetchErrorStatusCode, FetchRequest, FetchServer, new_fetch_body_bad_request, new_fetch_body_general_error, new_fetch_body_not_found
 from streamtasks.client.signal import SignalServer, send_signal
 from streamtasks.client.topic import OutTopic
@@ -178,6 +178,8 @@ class TaskHost(Worker):
   async def register(self, endpoint: EndpointOrAddress = NetworkAddressNames.TASK_MANAGER):
     if not hasattr(self, "client"): raise ValueError("Client not created yet!")
     if self.client.address is None: raise ValueError("Client had no address!")
+    address = endpoint[0] if isinstance(endpoint, tuple) else endpoint
+    if isinstance(address, str): await wait_for_address_name(self.client, address)
     reg = TaskHostRegistration(id=self.id, address=self.client.address, metadata={ **self._base_metadata, **self.metadata })
     await self.client.fetch(endpoint, TaskConstants.FD_REGISTER_TASK_HOST, reg.model_dump())
     self._registered_at_endpoints.append(endpoint)
-- 
2.43.0


From a7828627c47addef87cabaa8af8b1d48deed9521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:30 +0000
Subject: [PATCH 024/102] fix: the tasks of a task host that left or was
 replaced are reported as stopped

---
 streamtasks/system/task.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index beb28c3..a1c144f 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -292,6 +292,13 @@ class TaskManager(Worker):
     finally:
       await self.shutdown()
 
+  async def _forget_host_tasks(self, host_id: str):
+    tasks = [ task for task in self.tasks.values() if task.host_id == host_id ]
+    for task in tasks:
+      self.tasks.pop(task.id, None)
+      task.status = TaskStatus.stopped
+    for task in tasks: await self.bc_server.broadcast(get_namespace_by_task_id(task.id), RawData(task.model_dump()))
+
   async def run_signal_api(self):
     server = SignalServer(self.client)
 
@@ -310,7 +317,7 @@ class TaskManager(Worker):
     async def _(message_data: Any):
       data = ModelWithStrId.model_validate(message_data)
       self.task_hosts.pop(data.id, None)
-      self.tasks = { tid: task for tid, task in self.tasks.items() if task.host_id != data.id }
+      await self._forget_host_tasks(data.id)
       await self.bc_server.broadcast(TaskConstants.BC_TASK_HOST_UNREGISTERED, RawData(data.model_dump()))
 
     await server.run()
@@ -322,7 +329,9 @@ class TaskManager(Worker):
     async def _(req: FetchRequest):
       try:
         reg = TaskHostRegistration.model_validate(req.body)
+        prev_reg = self.task_hosts.get(reg.id, None)
         self.task_hosts[reg.id] = reg
+        if prev_reg is not None and prev_reg.address != reg.address: await self._forget_host_tasks(reg.id) # they ran on the host that was there before
         await self.bc_server.broadcast(TaskConstants.BC_TASK_HOST_REGISTERED, RawData(reg.model_dump()))
         await req.respond(None)
       except KeyError as e: await req.respond_error(new_fetch_body_not_found(str(e)))
-- 
2.43.0


From a89ed487f46fb7a0a19ac1c8bd0210d22dea25fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:51 +0000
Subject: [PATCH 025/102] fix: a task host that does not answer no longer
 blocks the task manager

---
 streamtasks/system/task.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index a1c144f..d90c483 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -391,14 +391,17 @@ class TaskManager(Worker):
           config=body.config
         )
 
-        task_start_result = await self.client.fetch(task_host.address, TaskConstants.FD_TASK_START, task_start_request.model_dump())
-        task_start_result: TaskStartResponse = TaskStartResponse.model_validate(task_start_result)
+        try:
+          task_start_result = await asyncio.wait_for(self.client.fetch(task_host.address, TaskConstants.FD_TASK_START, task_start_request.model_dump()), 5) # NOTE: make this configurable
+          task_start_result: TaskStartResponse = TaskStartResponse.model_validate(task_start_result)
+        except asyncio.TimeoutError:
+          task_start_result = TaskStartResponse(id=task_instance.id, error="The task host did not answer!", metadata={})
 
         task_instance.metadata=task_start_result.metadata
         if task_start_result.error is not None:
           task_instance.error=task_start_result.error
           task_instance.status=TaskStatus.failed
-          self.tasks.pop(task_instance.id)
+          self.tasks.pop(task_instance.id, None)
         elif task_instance.status is TaskStatus.scheduled: task_instance.status=TaskStatus.running # its end may have been reported already
 
         await req.respond(task_instance.model_dump())
@@ -417,7 +420,7 @@ class TaskManager(Worker):
           return await req.respond("OK")
         task_host = self.task_hosts[task_inst.host_id]
         tc_req = TaskCancelRequest(id=task_inst.id)
-        task_cancel_result = await self.client.fetch(task_host.address, TaskConstants.FD_TASK_CANCEL, tc_req.model_dump())
+        task_cancel_result = await asyncio.wait_for(self.client.fetch(task_host.address, TaskConstants.FD_TASK_CANCEL, tc_req.model_dump()), 5) # NOTE: make this configurable
         if task_cancel_result != "OK": raise Exception("Failed to cancel task!")
         await req.respond("OK")
       except KeyError as e: await req.respond_error(new_fetch_body_not_found(str(e)))
-- 
2.43.0


From b2a4cab92b251d28781cbc64a8fde7b7743764fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:49 +0000
Subject: [PATCH 026/102] fix: what was sent before a queue link closed is
 still received

---
 streamtasks/net/__init__.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index c052355..34782f0 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -92,20 +92,24 @@ class Link(ABC):
     await self._send(message)
 
   async def recv(self) -> Message:
-    if self._closed: raise ConnectionClosedError()
     message = None
     while message is None:
+      message = self._process_recv_message(_transform_message(await self._recv_next()))
+    return message
+
+  async def _recv_next(self) -> Message:
+    if not self._closed:
       self._receiver = asyncio.create_task(self._recv())
-      try:
-        message = await self._receiver
-        message = _transform_message(message)
-        message = self._process_recv_message(message)
+      try: return await self._receiver
       except asyncio.CancelledError as e:
-        if len(e.args) > 0 and isinstance(e.args[0], ConnectionClosedError): raise e.args[0]
-        else: raise e
+        if len(e.args) == 0 or not isinstance(e.args[0], ConnectionClosedError): raise e
       finally: self._receiver = None
+    message = self._recv_remaining()
+    if message is None: raise ConnectionClosedError()
     return message
 
+  def _recv_remaining(self) -> Message | None: return None # what had arrived before the link was closed
+
   @abstractmethod
   async def _send(self, message: Message): pass
 
@@ -179,6 +183,11 @@ class QueueLink(Link):
     result = await self.in_messages.get()
     self.in_messages.task_done()
     return result
+  def _recv_remaining(self) -> Message | None:
+    if self.in_messages.empty(): return None
+    result = self.in_messages.get_nowait()
+    self.in_messages.task_done()
+    return result
 
 class RawQueueLink(QueueLink):
   async def _send(self, message: Message): await self.out_messages.put(serialize_message(message))
@@ -186,6 +195,9 @@ class RawQueueLink(QueueLink):
     result = await self.in_messages.get()
     self.in_messages.task_done()
     return deserialize_message(result)
+  def _recv_remaining(self) -> Message | None:
+    result = super()._recv_remaining()
+    return None if result is None else deserialize_message(result)
 
 def create_queue_connection(raw: bool = False) -> tuple[Link, Link]:
   queue_a, queue_b = asyncio.Queue(), asyncio.Queue()
-- 
2.43.0


From 3e85edd507ebc67513c51e438614409b4c8e76d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:37 +0000
Subject: [PATCH 027/102] fix: a service can be reached before others learn its
 name

---
 streamtasks/client/discovery.py           |  9 ++++++++-
 streamtasks/system/named_topic_manager.py |  5 ++---
 streamtasks/system/secret_manager.py      |  5 ++---
 streamtasks/system/task.py                | 14 +++++++-------
 streamtasks/system/task_web.py            |  5 ++---
 5 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/streamtasks/client/discovery.py b/streamtasks/client/discovery.py
index a8325d1..001583c 100644
--- a/streamtasks/client/discovery.py
+++ b/streamtasks/client/discovery.py
@@ -1,6 +1,6 @@
 from contextlib import asynccontextmanager
 import secrets
-from typing import TYPE_CHECKING, Optional
+from typing import TYPE_CHECKING, Coroutine, Optional
 from pydantic import BaseModel, NonNegativeInt, ValidationError, field_validator
 from streamtasks.client.broadcast import BroadcastReceiver
 from streamtasks.client.receiver import Receiver
@@ -172,6 +172,13 @@ async def address_name_context(client: 'Client', name: str, address: int | None
     await send_signal(client, NetworkAddresses.ID_DISCOVERY, DiscoveryConstants.SD_UNREGISTER_ADDRESS_NAME, UnregisterAddressNameMessage(address_name=name, address=address).model_dump())
     client.set_address_name(name, None)
 
+async def serve_with_address_name(client: 'Client', name: str, *services: Coroutine):
+  tasks = [ asyncio.create_task(service) for service in services ] # must be able to receive before anyone learns the name
+  try:
+    async with address_name_context(client, name): await asyncio.gather(*tasks)
+  finally:
+    for task in tasks: task.cancel()
+
 async def wait_for_topic_signal(client: 'Client', topic: int): return await TopicSignalReceiver(client, topic).wait()
 
 async def wait_for_address_name(client: 'Client', name: str):
diff --git a/streamtasks/system/named_topic_manager.py b/streamtasks/system/named_topic_manager.py
index b3814b1..7dac5e9 100644
--- a/streamtasks/system/named_topic_manager.py
+++ b/streamtasks/system/named_topic_manager.py
@@ -4,7 +4,7 @@ from urllib.parse import unquote
 from pydantic import BaseModel, TypeAdapter
 from streamtasks.asgi import ASGIAppRunner, asgi_default_http_error_handler
 from streamtasks.asgiserver import ASGIRouter, ASGIServer, HTTPContext, http_context_handler
-from streamtasks.client.discovery import address_name_context
+from streamtasks.client.discovery import serve_with_address_name
 from streamtasks.client.fetch import FetchRequest, FetchServer, new_fetch_body_not_found
 from streamtasks.env import get_data_sub_dir
 from streamtasks.net import EndpointOrAddress
@@ -32,8 +32,7 @@ class NamedTopicManager(TaskWebPathHandler):
     self.topic_map: dict[str, int] = {}
 
   async def run_inner(self):
-    async with address_name_context(self.client, NetworkAddressNames.NAMED_TOPIC_MANAGER):
-      await asyncio.gather(self.run_web_server(), self.run_fetch_server())
+    await serve_with_address_name(self.client, NetworkAddressNames.NAMED_TOPIC_MANAGER, self.run_web_server(), self.run_fetch_server())
 
   async def run_fetch_server(self):
     server = FetchServer(self.client)
diff --git a/streamtasks/system/secret_manager.py b/streamtasks/system/secret_manager.py
index b670b4c..c16f492 100644
--- a/streamtasks/system/secret_manager.py
+++ b/streamtasks/system/secret_manager.py
@@ -5,7 +5,7 @@ from pydantic import UUID4, BaseModel, TypeAdapter
 from streamtasks.asgi import ASGIAppRunner, asgi_default_http_error_handler
 from streamtasks.asgiserver import ASGIRouter, ASGIServer, HTTPContext, http_context_handler
 from streamtasks.client import Client
-from streamtasks.client.discovery import address_name_context
+from streamtasks.client.discovery import serve_with_address_name
 from streamtasks.client.fetch import FetchRequest, FetchServer, new_fetch_body_not_found
 from streamtasks.env import get_data_sub_dir
 from streamtasks.net import EndpointOrAddress
@@ -28,8 +28,7 @@ class SecretManager(TaskWebPathHandler):
     self.db = PydanticDB(SecretModel, os.path.join(get_data_sub_dir("user-data"), "secrets.json"))
 
   async def run_inner(self):
-    async with address_name_context(self.client, NetworkAddressNames.SECRET_MANAGER):
-      await asyncio.gather(self.run_web_server(), self.run_fetch_server())
+    await serve_with_address_name(self.client, NetworkAddressNames.SECRET_MANAGER, self.run_web_server(), self.run_fetch_server())
 
   async def run_fetch_server(self):
     server = FetchServer(self.client)
diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index d90c483..b0018ba 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -11,7 +11,7 @@ from streamtasks.asgiserver import ASGIRouter, ASGIServer
 from streamtasks.client import Client
 import asyncio
 from streamtasks.client.broadcast import BroadcastReceiver, BroadcastingServer
-from streamtasks.client.discovery import address_name_context, get_topic_space, wait_for_address_name, wait_for_topic_signal
+from streamtasks.client.discovery import get_topic_space, serve_with_address_name, wait_for_address_name, wait_for_topic_signal
 from streamtasks.client.fetch import FetchError, FetchErrorStatusCode, FetchRequest, FetchServer, new_fetch_body_bad_request, new_fetch_body_general_error, new_fetch_body_not_found
 from streamtasks.client.signal import SignalServer, send_signal
 from streamtasks.client.topic import OutTopic
@@ -283,12 +283,12 @@ class TaskManager(Worker):
       self.client.start()
       await self.client.request_address()
       self.bc_server = BroadcastingServer(self.client)
-      async with address_name_context(self.client, self.address_name):
-        await asyncio.gather(
-          self.run_fetch_api(),
-          self.run_signal_api(),
-          self.bc_server.run()
-        )
+      await serve_with_address_name(
+        self.client, self.address_name,
+        self.run_fetch_api(),
+        self.run_signal_api(),
+        self.bc_server.run()
+      )
     finally:
       await self.shutdown()
 
diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index 1c12630..8707cec 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -14,7 +14,7 @@ from streamtasks.asgi import ASGIAppRunner, ASGIProxyApp, asgi_default_http_erro
 from streamtasks.asgiserver import ASGIHandler, ASGIRouter, ASGIServer, HTTPContext, TransportContext, WebsocketContext, decode_data_uri, http_context_handler, path_rewrite_handler, static_content_handler, static_files_handler, transport_context_handler, websocket_context_handler
 from streamtasks.client import Client
 from streamtasks.client.broadcast import BroadcastReceiver
-from streamtasks.client.discovery import address_name_context, delete_topic_space, get_topic_space_translation, register_topic_space, wait_for_address_name
+from streamtasks.client.discovery import delete_topic_space, get_topic_space_translation, register_topic_space, serve_with_address_name, wait_for_address_name
 from streamtasks.client.fetch import FetchRequest, FetchServer
 from streamtasks.client.receiver import TopicsReceiver
 from streamtasks.client.signal import SignalServer
@@ -219,8 +219,7 @@ class TaskWebBackend(Worker):
       self.client.start()
       await self.client.request_address()
       self.tm_client = TaskManagerClient(self.client, self.task_manager_address_name)
-      async with address_name_context(self.client, self.address_name):
-        await asyncio.gather(self.run_asgi_server(), self.run_fetch_api(), self.run_signal_api())
+      await serve_with_address_name(self.client, self.address_name, self.run_asgi_server(), self.run_fetch_api(), self.run_signal_api())
     finally:
       await self.shutdown()
 
-- 
2.43.0


From 18cc62aad2ebb2393c658aa0d77335b7110ecf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:48 +0000
Subject: [PATCH 028/102] fix: a task host that shuts down waits until its last
 messages are on their way

---
 streamtasks/client/__init__.py | 8 ++++++++
 streamtasks/system/task.py     | 4 +++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/streamtasks/client/__init__.py b/streamtasks/client/__init__.py
index e719fc0..f432173 100644
--- a/streamtasks/client/__init__.py
+++ b/streamtasks/client/__init__.py
@@ -112,6 +112,14 @@ class Client:
       raise FetchError(response_data.body)
     return response_data.body
 
+  async def flush(self):
+    """Waits until everything sent so far has passed the switch this client is connected to."""
+    if self.address is None: raise Exception("No local address")
+    return_port = self.get_free_port()
+    async with FetchReponseReceiver(self, return_port) as receiver:
+      await self.send_to((self.address, return_port), RawData(FetchResponseMessage(body=None).model_dump()))
+      await receiver.get()
+
   async def enable_receiver(self, receiver: Receiver):
     self._receivers.append(receiver)
     if self._receive_task is None: self._start_receiving()
diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index b0018ba..d9758ca 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -219,7 +219,9 @@ class TaskHost(Worker):
       for task in running_tasks: task.cancel()
       if len(running_tasks) > 0: await asyncio.wait(running_tasks, timeout=1) # NOTE: make configurable
       unregister_tasks = [ asyncio.create_task(self.unregister(ep)) for ep in self._registered_at_endpoints ]
-      if len(unregister_tasks) > 0: await asyncio.wait(unregister_tasks, timeout=1) # NOTE: make configurable
+      if len(unregister_tasks) > 0:
+        await asyncio.wait(unregister_tasks, timeout=1) # NOTE: make configurable
+        await asyncio.wait([ asyncio.create_task(self.client.flush()) ], timeout=1) # the switch must not stop before it has passed them on
       await self.shutdown()
       self.ready.clear()
 
-- 
2.43.0


From 579fd85c120b22a2a5813252c16e108f2df1057c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:10 +0000
Subject: [PATCH 029/102] fix: cancelling a task that has just ended is
 answered with not found

---
 streamtasks/system/task.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index d9758ca..7c62a42 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -265,7 +265,7 @@ class TaskHost(Worker):
         task = self.tasks[body.id]
         task.cancel("Cancelled remotely!")
         await req.respond("OK")
-      except KeyError as e: await req.respond_error(new_fetch_body_bad_request(str(e)))
+      except KeyError as e: await req.respond_error(new_fetch_body_not_found(str(e)))
       except BaseException as e: await req.respond_error(new_fetch_body_general_error(str(e)))
 
     await fetch_server.run()
@@ -422,7 +422,11 @@ class TaskManager(Worker):
           return await req.respond("OK")
         task_host = self.task_hosts[task_inst.host_id]
         tc_req = TaskCancelRequest(id=task_inst.id)
-        task_cancel_result = await asyncio.wait_for(self.client.fetch(task_host.address, TaskConstants.FD_TASK_CANCEL, tc_req.model_dump()), 5) # NOTE: make this configurable
+        try:
+          task_cancel_result = await asyncio.wait_for(self.client.fetch(task_host.address, TaskConstants.FD_TASK_CANCEL, tc_req.model_dump()), 5) # NOTE: make this configurable
+        except FetchError as e:
+          if e.status_code is FetchErrorStatusCode.NOT_FOUND: return await req.respond_error(new_fetch_body_not_found(str(e))) # it has ended, its report is on the way
+          raise
         if task_cancel_result != "OK": raise Exception("Failed to cancel task!")
         await req.respond("OK")
       except KeyError as e: await req.respond_error(new_fetch_body_not_found(str(e)))
-- 
2.43.0


From 24c3d0a68b572502e880a0673f580d698a1d35ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:54 +0000
Subject: [PATCH 030/102] fix: a task can not be moved out of a running
 deployment

---
 streamtasks/system/task_web.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index 8707cec..998589f 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -180,11 +180,9 @@ class TaskWebBackendStore:
     except StopIteration: raise ValueError("Invalid id!")
   async def create_or_update_task(self, task: StoredTask) -> StoredTask:
     if task.deployment_id in self.running_deployments: raise ValueError("Deployment is running!")
-    try:
-      existing_task = await self.get_task(task.id)
-      if existing_task.deployment_id in self.running_deployments: raise ValueError("Deployment is running!")
-      self.tasks.update([t for t in self.tasks.entries if t.id != task.id] + [task])
-    except: self.tasks.update(self.tasks.entries + [task])
+    existing_task = next((t for t in self.tasks.entries if t.id == task.id), None)
+    if existing_task is not None and existing_task.deployment_id in self.running_deployments: raise ValueError("Deployment is running!")
+    self.tasks.update([t for t in self.tasks.entries if t.id != task.id] + [task])
     self.tasks.save()
   async def delete_task(self, id: UUID4):
     task = await self.get_task(id)
-- 
2.43.0


From 698d9927f2b2a1845905251399eaef84d794134f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:54 +0000
Subject: [PATCH 031/102] fix: a deployment is scheduled, started and stopped
 by one request at a time

---
 streamtasks/system/task_web.py | 90 ++++++++++++++++++++--------------
 1 file changed, 54 insertions(+), 36 deletions(-)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index 998589f..c283166 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -6,7 +6,7 @@ import logging
 import mimetypes
 import os
 import re
-from typing import Any, Literal
+from typing import Any, Coroutine, Iterable, Literal
 from typing_extensions import TypedDict
 from uuid import UUID, uuid4
 from pydantic import UUID4, BaseModel, Field, TypeAdapter, field_serializer, field_validator
@@ -38,7 +38,7 @@ class FullDeployment(DeploymentBase):
 
 class RunningDeployment(ModelWithId):
   started: bool = False
-  topic_space_id: int
+  topic_space_id: int | None = None
   task_instances: dict[UUID4, TaskInstance]
   task_instance_configs: dict[UUID4, Any] | None
 
@@ -206,6 +206,7 @@ class TaskWebBackend(Worker):
     self.task_host_asgi_handlers: dict[str, ASGIHandler] = {}
     self.task_asgi_handlers: dict[UUID4, ASGIHandler] = {}
     self.deployment_task_listeners: dict[UUID4, asyncio.Task] = {}
+    self.deployment_locks: dict[UUID4, asyncio.Lock] = {} # schedule, start and stop of a deployment do not overlap
     self.path_registrations: list[PathRegistration] = []
     self.store = TaskWebBackendStore()
     self.client: Client
@@ -265,52 +266,52 @@ class TaskWebBackend(Worker):
     @http_context_handler
     async def _(ctx: HTTPContext):
       deployment_id = UUID(ctx.params.get("id", ""))
-      tasks = await self.store.all_tasks_in_deployment(deployment_id)
-      topic_ids = set(itertools.chain.from_iterable((int(output["topic_id"]) for output in task.outputs) for task in tasks))
-      topic_space_id, _ = await register_topic_space(self.client, topic_ids)
-      running_deployment = RunningDeployment(id=deployment_id, topic_space_id=topic_space_id, task_instances={}, task_instance_configs={})
-      self.store.set_running_deployment(running_deployment)
-
-      async def schedule_task(task: FullTask):
-        task_instance = await self.tm_client.schedule_task(task.task_host_id, topic_space_id)
-        running_deployment.task_instances[task.id] = task_instance
-        running_deployment.task_instance_configs[task_instance.id] = task.config
-      await asyncio.gather(*(schedule_task(task) for task in tasks))
-
-      self.deployment_task_listeners[deployment_id] = asyncio.create_task(self.run_deployment_task_listener(running_deployment))
-      await ctx.respond_json_string((await self.store.get_deployment(deployment_id)).model_dump_json())
+      async with self.get_deployment_lock(deployment_id):
+        await self.store.get_deployment(deployment_id)
+        if deployment_id in self.store.running_deployments: raise ValueError("Deployment is running!")
+        tasks = await self.store.all_tasks_in_deployment(deployment_id)
+        topic_ids = set(itertools.chain.from_iterable((int(output["topic_id"]) for output in task.outputs) for task in tasks))
+        running_deployment = RunningDeployment(id=deployment_id, task_instances={}, task_instance_configs={})
+        self.store.set_running_deployment(running_deployment) # from here on it can not be changed
+
+        async def schedule_task(task: FullTask):
+          task_instance = await self.tm_client.schedule_task(task.task_host_id, running_deployment.topic_space_id)
+          running_deployment.task_instances[task.id] = task_instance
+          running_deployment.task_instance_configs[task_instance.id] = task.config
+
+        try:
+          running_deployment.topic_space_id, _ = await register_topic_space(self.client, topic_ids)
+          await self.gather_all(schedule_task(task) for task in tasks)
+        except BaseException:
+          await self.stop_running_deployment(running_deployment)
+          raise
+
+        self.deployment_task_listeners[deployment_id] = asyncio.create_task(self.run_deployment_task_listener(running_deployment))
+        await ctx.respond_json_string((await self.store.get_deployment(deployment_id)).model_dump_json())
 
     @router.post("/api/deployment/{id}/start")
     @http_context_handler
     async def _(ctx: HTTPContext):
       deployment_id = UUID(ctx.params.get("id", ""))
-      running_deployment = self.store.get_running_deployment(deployment_id)
+      async with self.get_deployment_lock(deployment_id):
+        running_deployment = self.store.get_running_deployment(deployment_id)
+        if running_deployment.task_instance_configs is None: raise ValueError("Deployment was started already!")
 
-      async def start_task(task_id: UUID, task_instance: TaskInstance):
-        new_task_instance = await self.tm_client.start_task(task_instance.id, running_deployment.task_instance_configs.get(task_instance.id, None))
-        running_deployment.task_instances[task_id] = new_task_instance
-      await asyncio.gather(*(start_task(task_id, task_instance) for (task_id, task_instance) in running_deployment.task_instances.items()))
+        async def start_task(task_id: UUID, task_instance: TaskInstance):
+          new_task_instance = await self.tm_client.start_task(task_instance.id, running_deployment.task_instance_configs.get(task_instance.id, None))
+          running_deployment.task_instances[task_id] = new_task_instance
+        await self.gather_all(start_task(task_id, task_instance) for (task_id, task_instance) in running_deployment.task_instances.items())
 
-      running_deployment.task_instance_configs = None
-      await ctx.respond_json_string((await self.store.get_deployment(deployment_id)).model_dump_json())
+        running_deployment.task_instance_configs = None
+        await ctx.respond_json_string((await self.store.get_deployment(deployment_id)).model_dump_json())
 
     @router.post("/api/deployment/{id}/stop")
     @http_context_handler
     async def _(ctx: HTTPContext):
       deployment_id = UUID(ctx.params.get("id", ""))
-      running_deployment = self.store.get_running_deployment(deployment_id)
-
-      async def stop_task(task_instance: TaskInstance):
-        try: await self.tm_client.cancel_task_wait(task_instance.id)
-        except TaskNotFoundError: pass
-      await asyncio.gather(*(stop_task(task_instance) for task_instance in running_deployment.task_instances.values()))
-
-      await delete_topic_space(self.client, running_deployment.topic_space_id)
-
-      if (listener_task := self.deployment_task_listeners.pop(deployment_id, None)) is not None: listener_task.cancel()
-      self.store.delete_running_deployment(deployment_id)
-
-      await ctx.respond_json_string((await self.store.get_deployment(deployment_id)).model_dump_json())
+      async with self.get_deployment_lock(deployment_id):
+        await self.stop_running_deployment(self.store.get_running_deployment(deployment_id))
+        await ctx.respond_json_string((await self.store.get_deployment(deployment_id)).model_dump_json())
 
     @router.get("/api/deployment/{id}")
     @http_context_handler
@@ -471,6 +472,23 @@ class TaskWebBackend(Worker):
 
     await ASGIAppRunner(self.client, app).run()
 
+  def get_deployment_lock(self, deployment_id: UUID4): return self.deployment_locks.setdefault(deployment_id, asyncio.Lock())
+
+  async def gather_all(self, coros: Iterable[Coroutine]):
+    for result in await asyncio.gather(*coros, return_exceptions=True): # none is left running when one fails
+      if isinstance(result, BaseException): raise result
+
+  async def stop_running_deployment(self, running_deployment: RunningDeployment):
+    async def stop_task(task_instance: TaskInstance):
+      try: await self.tm_client.cancel_task_wait(task_instance.id)
+      except TaskNotFoundError: pass
+    await self.gather_all(stop_task(task_instance) for task_instance in running_deployment.task_instances.values())
+
+    if running_deployment.topic_space_id is not None: await delete_topic_space(self.client, running_deployment.topic_space_id)
+
+    if (listener_task := self.deployment_task_listeners.pop(running_deployment.id, None)) is not None: listener_task.cancel()
+    self.store.delete_running_deployment(running_deployment.id)
+
   async def run_deployment_task_listener(self, deployment: RunningDeployment):
     async for task_id, task_instance in self.receive_deployment_task_instance_updates(deployment):
       deployment.task_instances[task_id] = task_instance
-- 
2.43.0


From d2ee5ceb59b650442deebd81a0abff81d871d089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:54 +0000
Subject: [PATCH 032/102] fix: a started deployment is shown as running

---
 streamtasks/system/task_web.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index c283166..701b082 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -303,6 +303,7 @@ class TaskWebBackend(Worker):
         await self.gather_all(start_task(task_id, task_instance) for (task_id, task_instance) in running_deployment.task_instances.items())
 
         running_deployment.task_instance_configs = None
+        running_deployment.started = True
         await ctx.respond_json_string((await self.store.get_deployment(deployment_id)).model_dump_json())
 
     @router.post("/api/deployment/{id}/stop")
-- 
2.43.0


From e41ed3b93a88a2d8851d5872aaf11cb92222aad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:54 +0000
Subject: [PATCH 033/102] fix: the end of a task is not overwritten by the
 response to its start

---
 streamtasks/system/task_web.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index 701b082..fa7830f 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -299,7 +299,8 @@ class TaskWebBackend(Worker):
 
         async def start_task(task_id: UUID, task_instance: TaskInstance):
           new_task_instance = await self.tm_client.start_task(task_instance.id, running_deployment.task_instance_configs.get(task_instance.id, None))
-          running_deployment.task_instances[task_id] = new_task_instance
+          if running_deployment.task_instances[task_id].status.is_active or not new_task_instance.status.is_active: # its end may be known already
+            running_deployment.task_instances[task_id] = new_task_instance
         await self.gather_all(start_task(task_id, task_instance) for (task_id, task_instance) in running_deployment.task_instances.items())
 
         running_deployment.task_instance_configs = None
-- 
2.43.0


From 7c170e96b3bb5dfa5741ed3f7439741c7b8a8f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:54 +0000
Subject: [PATCH 034/102] fix: a deployment follows its tasks before they can
 be started

---
 streamtasks/system/task_web.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index fa7830f..a9c3319 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -24,7 +24,7 @@ from streamtasks.net.serialization import RawData
 from streamtasks.net.utils import str_to_endpoint
 from streamtasks.pydanticdb import PydanticDB
 from streamtasks.services.constants import NetworkAddressNames
-from streamtasks.system.task import ModelWithStrId, TaskConstants, MetadataDict, MetadataFields, ModelWithId, TaskHostRegistration, TaskHostRegistrationList, TaskInstance, TaskManagerClient, TaskNotFoundError
+from streamtasks.system.task import ModelWithStrId, TaskConstants, MetadataDict, MetadataFields, ModelWithId, TaskBroadcastReceiver, TaskHostRegistration, TaskHostRegistrationList, TaskInstance, TaskManagerClient, TaskNotFoundError
 from streamtasks.utils import get_node_name_id, make_json_serializable, wait_with_dependencies
 from streamtasks.worker import Worker
 import importlib.resources
@@ -282,11 +282,13 @@ class TaskWebBackend(Worker):
         try:
           running_deployment.topic_space_id, _ = await register_topic_space(self.client, topic_ids)
           await self.gather_all(schedule_task(task) for task in tasks)
+          task_receiver = self.get_deployment_task_receiver(running_deployment)
+          await task_receiver.start_recv() # NOTE: before the tasks can be started, otherwise updates will be lost
         except BaseException:
           await self.stop_running_deployment(running_deployment)
           raise
 
-        self.deployment_task_listeners[deployment_id] = asyncio.create_task(self.run_deployment_task_listener(running_deployment))
+        self.deployment_task_listeners[deployment_id] = asyncio.create_task(self.run_deployment_task_listener(running_deployment, task_receiver))
         await ctx.respond_json_string((await self.store.get_deployment(deployment_id)).model_dump_json())
 
     @router.post("/api/deployment/{id}/start")
@@ -491,18 +493,24 @@ class TaskWebBackend(Worker):
     if (listener_task := self.deployment_task_listeners.pop(running_deployment.id, None)) is not None: listener_task.cancel()
     self.store.delete_running_deployment(running_deployment.id)
 
-  async def run_deployment_task_listener(self, deployment: RunningDeployment):
-    async for task_id, task_instance in self.receive_deployment_task_instance_updates(deployment):
-      deployment.task_instances[task_id] = task_instance
+  def get_deployment_task_receiver(self, deployment: RunningDeployment): return self.tm_client.task_receiver([ ti.id for ti in deployment.task_instances.values() ])
+
+  async def run_deployment_task_listener(self, deployment: RunningDeployment, receiver: TaskBroadcastReceiver):
+    try:
+      async for task_id, task_instance in self.receive_task_instance_updates(deployment, receiver):
+        deployment.task_instances[task_id] = task_instance
+    finally: await receiver.stop_recv()
 
   async def receive_deployment_task_instance_updates(self, deployment: RunningDeployment):
-    task_instance_ids = [ ti.id for ti in deployment.task_instances.values() ]
+    async with self.get_deployment_task_receiver(deployment) as receiver:
+      async for update in self.receive_task_instance_updates(deployment, receiver): yield update
+
+  async def receive_task_instance_updates(self, deployment: RunningDeployment, receiver: TaskBroadcastReceiver):
     task_instance_id_map = { ti.id: task_id for task_id, ti in deployment.task_instances.items() }
-    async with self.tm_client.task_receiver(task_instance_ids) as receiver:
-      while True:
-        task_instance = await receiver.get()
-        if (task_id := task_instance_id_map.get(task_instance.id, None)) is not None:
-          yield (task_id, task_instance)
+    while True:
+      task_instance = await receiver.get()
+      if (task_id := task_instance_id_map.get(task_instance.id, None)) is not None:
+        yield (task_id, task_instance)
 
   async def get_task_host_asgi_handler(self, id: str) -> ASGIHandler:
     if (router := self.task_host_asgi_handlers.get(id, None)) is None:
-- 
2.43.0


From 63432a2f3411414b5188496eb8d9f7d6149d02e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:13 +0000
Subject: [PATCH 035/102] fix: a task host that is starting a task can be shut
 down

---
 streamtasks/system/task.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index 7c62a42..bebb7ad 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -255,6 +255,7 @@ class TaskHost(Worker):
         metadata = await asyncio.wait_for(task.setup(), 1) # NOTE: make this configurable
         self.tasks[body.id] = asyncio.create_task(self.run_task(body.id, task, body.report_address))
         await req.respond(TaskStartResponse(id=body.id, metadata=metadata, error=None))
+      except asyncio.CancelledError: raise # the host shuts down
       except BaseException as e:
         await req.respond(TaskStartResponse(id=body.id, error=str(e), metadata={}))
 
@@ -266,6 +267,7 @@ class TaskHost(Worker):
         task.cancel("Cancelled remotely!")
         await req.respond("OK")
       except KeyError as e: await req.respond_error(new_fetch_body_not_found(str(e)))
+      except asyncio.CancelledError: raise
       except BaseException as e: await req.respond_error(new_fetch_body_general_error(str(e)))
 
     await fetch_server.run()
-- 
2.43.0


From 49d6edc374d27420deb98369b47ac01680845180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:31 +0000
Subject: [PATCH 036/102] fix: a path nobody handles is answered with not found

---
 streamtasks/asgi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamtasks/asgi.py b/streamtasks/asgi.py
index 725c204..b164ced 100644
--- a/streamtasks/asgi.py
+++ b/streamtasks/asgi.py
@@ -1,4 +1,4 @@
-from streamtasks.asgiserver import HTTPContext, http_context_handler
+from streamtasks.asgiserver import HTTPContext, NoHandlerError, http_context_handler
 from streamtasks.client.receiver import Receiver
 from streamtasks.client.fetch import FetchError, FetchErrorStatusCode, FetchRequest, FetchServer
 from streamtasks.utils import AsyncTaskManager
@@ -260,6 +260,7 @@ async def asgi_app_not_found(_scope, _receive, send):
 async def asgi_default_http_error_handler(ctx: HTTPContext):
   try:
     await ctx.next()
+  except NoHandlerError: raise
   except (ValidationError, ValueError) as e:
     logging.debug("ASGI request error (bad request): ", e)
     await ctx.respond_status(400)
-- 
2.43.0


From 1bfea386760ea24532ec9f19c67f3693b7f1dea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:00 +0000
Subject: [PATCH 037/102] fix: an application that fails while it answers does
 not begin a second answer

---
 streamtasks/asgi.py       |  5 ++++-
 streamtasks/asgiserver.py | 17 +++++++++++++++--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/streamtasks/asgi.py b/streamtasks/asgi.py
index b164ced..ce5d6dc 100644
--- a/streamtasks/asgi.py
+++ b/streamtasks/asgi.py
@@ -259,7 +259,10 @@ async def asgi_app_not_found(_scope, _receive, send):
 @http_context_handler
 async def asgi_default_http_error_handler(ctx: HTTPContext):
   try:
-    await ctx.next()
+    try: await ctx.next()
+    except BaseException:
+      if ctx.response_started: return # there is no second answer
+      raise
   except NoHandlerError: raise
   except (ValidationError, ValueError) as e:
     logging.debug("ASGI request error (bad request): ", e)
diff --git a/streamtasks/asgiserver.py b/streamtasks/asgiserver.py
index f562507..f2243a1 100644
--- a/streamtasks/asgiserver.py
+++ b/streamtasks/asgiserver.py
@@ -232,6 +232,7 @@ class HTTPContext(TransportContext):
     self._connected: bool = True
     self._more_request_body: bool = True
     self._more_response_body: bool = True
+    self._response_started: bool = False
     self._add_response_headers: list[tuple[ByteString, ByteString]] = []
     self._scope: HTTPScope
 
@@ -242,6 +243,8 @@ class HTTPContext(TransportContext):
   @property
   def more_response_body(self): return self._more_response_body
   @property
+  def response_started(self): return self._response_started
+  @property
   def method(self): return self._scope["method"]
   @functools.cached_property
   def body(self): return HTTPBodyReader(self._wreceive)
@@ -304,7 +307,9 @@ class HTTPContext(TransportContext):
 
   async def _wsend(self, event: dict):
     event_type = event.get("type", None)
-    if event_type == "http.response.start": event = { **event, "headers": event.get("headers", []) + self._add_response_headers }
+    if event_type == "http.response.start":
+      self._response_started = True
+      event = { **event, "headers": event.get("headers", []) + self._add_response_headers }
     if event_type == "http.response.body": self._more_response_body = event.get("more_body", False)
     return await super()._wsend(event)
   async def _wreceive(self) -> dict:
@@ -353,12 +358,20 @@ class ASGIHandlerStack:
 
 class ASGIServer(ASGIHandlerStack):
   async def __call__(self, scope: ASGIScope, receive: ASGIFnReceive, send: ASGIFnSend) -> Any:
+    answered = False
+    async def track_send(event: dict):
+      nonlocal answered
+      if event.get("type", None) in ("http.response.start", "websocket.close"): answered = True
+      await send(event)
+
     try:
-      await super().__call__(scope, receive, send)
+      await super().__call__(scope, receive, track_send)
     except NoHandlerError:
+      if answered: return
       if scope.get("type", None) == "http": await HTTPContext(scope, receive, send).respond_status(404)
       elif scope.get("type", None) == "websocket": await WebsocketContext(scope, receive, send).close(reason="No handler found.")
     except BaseException:
+      if answered: return # there is no second answer
       if scope.get("type", None) == "http": await HTTPContext(scope, receive, send).respond_status(500)
       elif scope.get("type", None) == "websocket": await WebsocketContext(scope, receive, send).close(code=1011)
 
-- 
2.43.0


From 5ca669c574e6d78608ceafee53b11c342802e656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:00 +0000
Subject: [PATCH 038/102] fix: a web connection that fails on one side ends on
 the other

---
 streamtasks/asgi.py | 65 ++++++++++++++++++++++-----------------------
 1 file changed, 32 insertions(+), 33 deletions(-)

diff --git a/streamtasks/asgi.py b/streamtasks/asgi.py
index ce5d6dc..6f2864d 100644
--- a/streamtasks/asgi.py
+++ b/streamtasks/asgi.py
@@ -196,39 +196,38 @@ class ASGIProxyApp:
     ser_scope = JSONValueTransformer.annotate_value(scope)
 
     port = self._client.get_free_port()
-    receiver = ASGIEventReceiver(self._client, port)
-    await receiver.start_recv() # NOTE: must be enabled before sending init message, otherwise events will be lost
-
-    init_respose_raw = await self._client.fetch(self._remote_endpoint, ASGIConstants.FD_DESCRIPTOR, ASGIInitRequest(
-      address=self._client.address,
-      port=port,
-      scope=ser_scope).model_dump())
-    init_respose = ASGIInitResponse.model_validate(init_respose_raw)
-
-    closed_event = asyncio.Event()
-    sender = ASGIEventSender(self._client, (self._remote_endpoint[0], init_respose.port))
-
-    async def recv_loop():
-      while not closed_event.is_set():
-        event = await receive()
-        await sender.send(event)
-        await asyncio.sleep(0)
-        event_type = event.get("type", None)
-        if event_type == "http.disconnect" or event_type == "websocket.disconnect": closed_event.set()
-
-    async def send_loop():
-      while not closed_event.is_set():
-        await asyncio.sleep(0)
-        data = await receiver.get()
-        for event in data.events: await send(MessagePackValueTransformer.deannotate_value(event))
-        if data.closed: closed_event.set()
-
-    recv_task = asyncio.create_task(recv_loop())
-    send_task = asyncio.create_task(send_loop())
-    await closed_event.wait()
-    await receiver.stop_recv()
-    recv_task.cancel()
-    send_task.cancel()
+    async with ASGIEventReceiver(self._client, port) as receiver: # NOTE: must be enabled before sending init message, otherwise events will be lost
+      init_respose_raw = await self._client.fetch(self._remote_endpoint, ASGIConstants.FD_DESCRIPTOR, ASGIInitRequest(
+        address=self._client.address,
+        port=port,
+        scope=ser_scope).model_dump())
+      init_respose = ASGIInitResponse.model_validate(init_respose_raw)
+
+      closed_event = asyncio.Event()
+      sender = ASGIEventSender(self._client, (self._remote_endpoint[0], init_respose.port))
+
+      async def recv_loop():
+        while not closed_event.is_set():
+          event = await receive()
+          await sender.send(event)
+          await asyncio.sleep(0)
+          event_type = event.get("type", None)
+          if event_type == "http.disconnect" or event_type == "websocket.disconnect": closed_event.set()
+
+      async def send_loop():
+        while not closed_event.is_set():
+          await asyncio.sleep(0)
+          data = await receiver.get()
+          for event in data.events: await send(MessagePackValueTransformer.deannotate_value(event))
+          if data.closed: closed_event.set()
+
+      tasks = [ asyncio.create_task(recv_loop()), asyncio.create_task(send_loop()) ]
+      try:
+        done, _ = await asyncio.wait(tasks, return_when="FIRST_COMPLETED")
+        for task in done: task.result() # the connection is over when one of them fails
+      finally:
+        for task in tasks: task.cancel()
+        if not closed_event.is_set(): await sender.send({ "type": f"{scope['type']}.disconnect" })
 
 class HTTPServerOverASGI(Worker):
   def __init__(self, http_endpoint: tuple[str, int], asgi_endpoint: EndpointOrAddress, http_config: dict[str, Any] = {}):
-- 
2.43.0


From fe58c225a8d2a6c7b4a2f15f285ee3008b904469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:46 +0000
Subject: [PATCH 039/102] fix: empty binary websocket messages are not dropped

---
 streamtasks/asgiserver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/asgiserver.py b/streamtasks/asgiserver.py
index f2243a1..2f2ea40 100644
--- a/streamtasks/asgiserver.py
+++ b/streamtasks/asgiserver.py
@@ -165,7 +165,7 @@ class WebsocketContext(TransportContext):
     event = await self._wreceive()
     if event["type"] == "websocket.connect": return "connect", None
     if event["type"] == "websocket.disconnect": return "disconnect", None
-    if event["type"] == "websocket.receive": return "message", event.get("bytes", None) or event.get("text", None)
+    if event["type"] == "websocket.receive": return "message", event["text"] if event.get("bytes", None) is None else event["bytes"]
 
   async def send_message(self, data: str | ByteString):
     event: dict[str, Any] = { "type": "websocket.send", "bytes": None, "text": None }
-- 
2.43.0


From 7d3b769cf10b01dd863ad6231e4ab89f69b0d232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:46 +0000
Subject: [PATCH 040/102] fix: web requests go to the current address of a task
 host or task

---
 streamtasks/system/task_web.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index a9c3319..d238fc7 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -203,8 +203,6 @@ class TaskWebBackend(Worker):
     super().__init__()
     self.task_manager_address_name = task_manager_address_name
     self.address_name = address_name
-    self.task_host_asgi_handlers: dict[str, ASGIHandler] = {}
-    self.task_asgi_handlers: dict[UUID4, ASGIHandler] = {}
     self.deployment_task_listeners: dict[UUID4, asyncio.Task] = {}
     self.deployment_locks: dict[UUID4, asyncio.Lock] = {} # schedule, start and stop of a deployment do not overlap
     self.path_registrations: list[PathRegistration] = []
@@ -513,16 +511,12 @@ class TaskWebBackend(Worker):
         yield (task_id, task_instance)
 
   async def get_task_host_asgi_handler(self, id: str) -> ASGIHandler:
-    if (router := self.task_host_asgi_handlers.get(id, None)) is None:
-      reg: TaskHostRegistration = await self.tm_client.get_task_host(id)
-      self.task_host_asgi_handlers[id] = router = self._metadata_to_router(reg.metadata)
-    return router
+    reg: TaskHostRegistration = await self.tm_client.get_task_host(id) # NOTE: it may have come back with another address
+    return self._metadata_to_router(reg.metadata)
 
   async def get_task_asgi_handler(self, id: UUID4) -> ASGIHandler:
-    if (router := self.task_asgi_handlers.get(id, None)) is None:
-      reg: TaskInstance = await self.tm_client.get_task(id)
-      self.task_asgi_handlers[id] = router = self._metadata_to_router(reg.metadata)
-    return router
+    reg: TaskInstance = await self.tm_client.get_task(id) # NOTE: there is no metadata before it is started
+    return self._metadata_to_router(reg.metadata)
 
   def _metadata_to_router(self, metadata: MetadataDict) -> ASGIHandler:
     router = ASGIRouter()
-- 
2.43.0


From 08f62d7b1371e71d1ec13587989d9a065f911a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:46 +0000
Subject: [PATCH 041/102] fix: a path leads to the handler that registered it
 last, and to none after that has shut down

---
 streamtasks/system/task_web.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index d238fc7..329937f 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -17,7 +17,7 @@ from streamtasks.client.broadcast import BroadcastReceiver
 from streamtasks.client.discovery import delete_topic_space, get_topic_space_translation, register_topic_space, serve_with_address_name, wait_for_address_name
 from streamtasks.client.fetch import FetchRequest, FetchServer
 from streamtasks.client.receiver import TopicsReceiver
-from streamtasks.client.signal import SignalServer
+from streamtasks.client.signal import SignalServer, send_signal
 from streamtasks.env import get_data_sub_dir
 from streamtasks.net import EndpointOrAddress
 from streamtasks.net.serialization import RawData
@@ -116,6 +116,7 @@ class TaskWebPathHandler(Worker):
     self.client: Client
 
   async def run(self):
+    registered_at: list[EndpointOrAddress] = []
     try:
       self.client = await self.create_client()
       self.client.start()
@@ -124,8 +125,12 @@ class TaskWebPathHandler(Worker):
         address = reg_ep[0] if isinstance(reg_ep, tuple) else reg_ep
         if isinstance(address, str): await wait_for_address_name(self.client, address)
         await self.client.fetch(reg_ep, TaskConstants.FD_TMW_REGISTER_PATH, PathRegistration(id=self.id, endpoint=self.client.address, frontend=self.frontend, path=self.path).model_dump())
+        registered_at.append(reg_ep)
       await self.run_inner()
-    finally: await self.shutdown()
+    finally:
+      for reg_ep in registered_at: await send_signal(self.client, reg_ep, TaskConstants.SD_TMW_UNREGISTER_PATH, ModelWithStrId(id=self.id).model_dump())
+      if len(registered_at) > 0: await asyncio.wait([ asyncio.create_task(self.client.flush()) ], timeout=1) # the switch must not stop before it has passed them on
+      await self.shutdown()
 
   @abstractmethod
   async def run_inner(self): pass
@@ -226,7 +231,7 @@ class TaskWebBackend(Worker):
     @server.route(TaskConstants.FD_TMW_REGISTER_PATH)
     async def _(req: FetchRequest):
       body = PathRegistration.model_validate(req.body)
-      self.path_registrations.append(body)
+      self.path_registrations = [ reg for reg in self.path_registrations if reg.id != body.id ] + [ body ]
       await req.respond(None)
 
     await server.run()
-- 
2.43.0


From 6291c90589cdb0309c3faee8de59c34c0419eb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:46 +0000
Subject: [PATCH 042/102] fix: websockets of deployments end cleanly

---
 streamtasks/system/task_web.py | 8 ++++----
 streamtasks/utils.py           | 4 +++-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index 329937f..9810da0 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -424,11 +424,11 @@ class TaskWebBackend(Worker):
     @router.websocket_route("/deployment/{deployment_id}/task-instances")
     @websocket_context_handler
     async def _(ctx: WebsocketContext):
+      deployment = self.store.get_running_deployment(UUID(ctx.params.get("deployment_id", "")))
+      await ctx.accept()
+      receive_disconnect_task = asyncio.create_task(ctx.receive_disconnect())
+      update_generator = self.receive_deployment_task_instance_updates(deployment)
       try:
-        await ctx.accept()
-        receive_disconnect_task = asyncio.create_task(ctx.receive_disconnect())
-        deployment = self.store.get_running_deployment(UUID(ctx.params.get("deployment_id", "")))
-        update_generator = self.receive_deployment_task_instance_updates(deployment)
         while ctx.connected:
           task_id, task_instance = await wait_with_dependencies(anext(update_generator), [receive_disconnect_task])
           await ctx.send_message(UpdateTaskInstanceMessage(id=task_id, task_instance=task_instance).model_dump_json())
diff --git a/streamtasks/utils.py b/streamtasks/utils.py
index c94db34..9936e4c 100644
--- a/streamtasks/utils.py
+++ b/streamtasks/utils.py
@@ -285,7 +285,9 @@ RT = TypeVar('RT')
 async def wait_with_dependencies(main: Awaitable[RT], deps: Iterable[asyncio.Future]):
   main = asyncio.Task(main) if asyncio.iscoroutine(main) else main
   await asyncio.wait([main, *deps], return_when="FIRST_COMPLETED")
-  if not main.done(): main.cancel()
+  if not main.done():
+    main.cancel()
+    await asyncio.wait([main]) # it has to come to its end first
   return main.result()
 
 def get_timestamp_ms(): return time.time_ns() // 1000_000
-- 
2.43.0


From 44a6fd915d0411688bf8868531fc98be9594b368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:02 +0000
Subject: [PATCH 043/102] fix: the secret manager has a name of its own

---
 streamtasks/services/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/services/constants.py b/streamtasks/services/constants.py
index 8cec79a..085fdb8 100644
--- a/streamtasks/services/constants.py
+++ b/streamtasks/services/constants.py
@@ -19,4 +19,4 @@ class NetworkAddressNames:
   TASK_MANAGER = "task_manager"
   TASK_MANAGER_WEB = "task_manager_web"
   NAMED_TOPIC_MANAGER = "named_topic_manager"
-  SECRET_MANAGER = "named_topic_manager"
+  SECRET_MANAGER = "secret_manager"
-- 
2.43.0


From 9e176478adde88d5cfcc0c0ea946a0544e3883fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:02 +0000
Subject: [PATCH 044/102] fix: secrets can be used from other processes,
 missing ones are reported as not found

---
 streamtasks/system/secret_manager.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/streamtasks/system/secret_manager.py b/streamtasks/system/secret_manager.py
index c16f492..6aa4121 100644
--- a/streamtasks/system/secret_manager.py
+++ b/streamtasks/system/secret_manager.py
@@ -1,7 +1,7 @@
 import asyncio
 import os
 from uuid import UUID
-from pydantic import UUID4, BaseModel, TypeAdapter
+from pydantic import UUID4, TypeAdapter
 from streamtasks.asgi import ASGIAppRunner, asgi_default_http_error_handler
 from streamtasks.asgiserver import ASGIRouter, ASGIServer, HTTPContext, http_context_handler
 from streamtasks.client import Client
@@ -11,14 +11,13 @@ from streamtasks.env import get_data_sub_dir
 from streamtasks.net import EndpointOrAddress
 from streamtasks.pydanticdb import PydanticDB
 from streamtasks.services.constants import NetworkAddressNames
+from streamtasks.system.task import ModelWithId
 from streamtasks.system.task_web import TaskWebPathHandler
 
-class SecretModel(BaseModel):
-  id: UUID4
+class SecretModel(ModelWithId):
   value: str
 
-class SecretRequestModel(BaseModel):
-  id: UUID4
+class SecretRequestModel(ModelWithId): pass
 
 SecretModelListModel = TypeAdapter(list[SecretModel])
 
@@ -38,7 +37,7 @@ class SecretManager(TaskWebPathHandler):
       try:
         data = SecretRequestModel.model_validate(req.body)
         await req.respond(next(e for e in self.db.entries if e.id == data.id).model_dump())
-      except KeyError: await req.respond_error(new_fetch_body_not_found("secret not found!"))
+      except StopIteration: await req.respond_error(new_fetch_body_not_found("secret not found!"))
 
     @server.route("put_secret")
     async def _(req: FetchRequest):
-- 
2.43.0


From 9a61bed8ac92d7835e5eee1417703072ab579847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:02 +0000
Subject: [PATCH 045/102] fix: failed or interrupted saves keep what was saved
 before

---
 streamtasks/pydanticdb.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/streamtasks/pydanticdb.py b/streamtasks/pydanticdb.py
index c181107..20b8f3c 100644
--- a/streamtasks/pydanticdb.py
+++ b/streamtasks/pydanticdb.py
@@ -9,6 +9,7 @@ class PydanticDB(Generic[T]):
   def __init__(self, model: type[T], filename: str) -> None:
     self._list_model = TypeAdapter(list[model])
     self._entries: list[T] = []
+    self._saved_entries: list[T] = []
     self._filename = filename
     if os.path.exists(filename): self.load()
 
@@ -16,9 +17,19 @@ class PydanticDB(Generic[T]):
   def entries(self): return copy.deepcopy(self._entries)
 
   def save(self):
-    with open(self._filename, "wb") as fd: fd.write(self._list_model.dump_json(self._entries))
+    tmp_filename = self._filename + ".tmp" # what has been saved before must be kept if this fails or is interrupted
+    try:
+      with open(tmp_filename, "wb") as fd:
+        fd.write(self._list_model.dump_json(self._entries))
+        fd.flush()
+        os.fsync(fd.fileno())
+      os.replace(tmp_filename, self._filename)
+      self._saved_entries = self._entries
+    except BaseException:
+      self._entries = self._saved_entries
+      raise
 
   def load(self):
-    with open(self._filename, "rb") as fd: self._entries = self._list_model.validate_json(fd.read())
+    with open(self._filename, "rb") as fd: self._entries = self._saved_entries = self._list_model.validate_json(fd.read())
 
   def update(self, entries: Iterable[T]): self._entries = list(entries)
-- 
2.43.0


From 1ca2de7293371e74e0b22d69c6f5600e05baa314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:34 +0000
Subject: [PATCH 046/102] fix: configured connections survive a crash, failed
 ones can be removed, servers stop with the connection manager

---
 streamtasks/system/connection_manager.py | 34 +++++++++++++-----------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/streamtasks/system/connection_manager.py b/streamtasks/system/connection_manager.py
index 2a309ba..e20d1c2 100644
--- a/streamtasks/system/connection_manager.py
+++ b/streamtasks/system/connection_manager.py
@@ -4,6 +4,7 @@ import functools
 import hashlib
 import itertools
 import json
+import logging
 import os
 import re
 from typing import Generic, TypeVar
@@ -60,12 +61,16 @@ class UrlData(Generic[T]):
     if self.task is not None: return
     self.task = asyncio.create_task(self.run())
 
-  async def run(self): await asyncio.gather(self.worker.run(), self.change_handler())
+  async def run(self):
+    change_task = asyncio.create_task(self.change_handler())
+    try: await self.worker.run()
+    finally: change_task.cancel()
   async def stop(self):
     if self.task is None: return None
     self.task.cancel()
     try: await self.task
     except asyncio.CancelledError: pass
+    except Exception as e: logging.warning(f"{self.sanitized_url} had failed: {e}")
     finally: self.task = None
 
   @abstractmethod
@@ -96,27 +101,24 @@ class UrlCreateModel(BaseModel):
 class ConnectionManager(TaskWebPathHandler):
   def __init__(self, register_endpoits: list[EndpointOrAddress] = [NetworkAddressNames.TASK_MANAGER_WEB]):
     super().__init__(f"/connections/{get_url_node_name()}/", PathRegistrationFrontend(path="std:connectionmanager", label=f"Connections ({NODE_NAME()})"), register_endpoits)
-    self.db = dbm.open(os.path.join(get_data_sub_dir("user-data"), "connections.db"), flag="c")
+    self._db_filename = os.path.join(get_data_sub_dir("user-data"), "connections.db")
     self._connection_url_data: list[ConnectionUrlData] = []
     self._server_url_data: list[ServerUrlData] = []
     self._change_trigger_servers = AsyncTrigger()
     self._change_trigger_connections = AsyncTrigger()
 
-  def __del__(self): self.db.close()
+  def load_urls(self, key: str) -> list[str]:
+    with dbm.open(self._db_filename, flag="c") as db:
+      try: return URLListAdapter.validate_json(db.get(key, b"[]"))
+      except ValidationError: return []
 
-  def get_connection_urls(self) -> list[str]:
-    try: return URLListAdapter.validate_json(self.db.get("connection", b"[]"))
-    except ValidationError: return []
+  def save_urls(self, key: str, urls: list[str]):
+    with dbm.open(self._db_filename, flag="c") as db: db[key] = json.dumps(urls).encode("utf-8") # NOTE: what is written may only be on disk once the db is closed
 
-  def update_connection_urls(self):
-    self.db["connection"] = json.dumps([ data.url for data in self._connection_url_data ]).encode("utf-8")
-
-  def get_server_urls(self) -> list[str]:
-    try: return URLListAdapter.validate_json(self.db.get("server", b"[]"))
-    except ValidationError: return []
-
-  def update_server_urls(self):
-    self.db["server"] = json.dumps([ data.url for data in self._server_url_data ]).encode("utf-8")
+  def get_connection_urls(self) -> list[str]: return self.load_urls("connection")
+  def update_connection_urls(self): self.save_urls("connection", [ data.url for data in self._connection_url_data ])
+  def get_server_urls(self) -> list[str]: return self.load_urls("server")
+  def update_server_urls(self): self.save_urls("server", [ data.url for data in self._server_url_data ])
 
   async def run_inner(self):
     try:
@@ -125,7 +127,7 @@ class ConnectionManager(TaskWebPathHandler):
       for url_data in itertools.chain(self._connection_url_data, self._server_url_data): url_data.start()
       await self.run_web_server()
     finally:
-      for data in itertools.chain(self._connection_url_data, self._connection_url_data): await data.stop()
+      for data in itertools.chain(self._connection_url_data, self._server_url_data): await data.stop()
 
   async def run_web_server(self):
     app = ASGIServer()
-- 
2.43.0


From ec9ba04f9c322512f14b9ac95957f38819d653a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:17 +0000
Subject: [PATCH 047/102] fix: a server that is shut down keeps no connection
 it was accepting, closed connections are not counted

---
 streamtasks/connection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/streamtasks/connection.py b/streamtasks/connection.py
index 07fd454..1cb4f62 100644
--- a/streamtasks/connection.py
+++ b/streamtasks/connection.py
@@ -225,8 +225,10 @@ class StreamServerBase(ServerBase):
     try:
       connection = RawStreamConnection(reader, writer)
       await connection.init_server(self.handshake_data)
+      if not self.running: return connection.close() # it has been shut down meanwhile
       link = RawConnectionLink(connection, self.cost)
       await self.switch.add_link(link)
+      if link.closed: return
       self.on_connected()
       link.on_closed.append(self.on_disconnected)
     except BaseException as e: logging.warning(f"Failed to initialize connection. Error: {e}")
@@ -265,6 +267,7 @@ class WebsocketServer(ServerBase):
       await connection.init_server(self.handshake_data)
       link = RawConnectionLink(connection, self.cost)
       await self.switch.add_link(link)
+      if link.closed: return
       self.on_connected()
       link.on_closed.append(self.on_disconnected)
       link.on_closed.append(close_event.set)
-- 
2.43.0


From a880e42736fceac6de268188a3ad3ad42c85ffba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:11 +0000
Subject: [PATCH 048/102] fix: messages that cannot be converted do not end
 timestamp updater, time to text and calculator tasks

---
 streamtasks/message/utils.py                 | 3 ++-
 streamtasks/system/tasks/calculator.py       | 3 ++-
 streamtasks/system/tasks/timestampupdater.py | 2 +-
 streamtasks/system/tasks/timetotext.py       | 2 +-
 4 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/streamtasks/message/utils.py b/streamtasks/message/utils.py
index 72b0276..b2e999c 100644
--- a/streamtasks/message/utils.py
+++ b/streamtasks/message/utils.py
@@ -1,3 +1,4 @@
+import math
 from streamtasks.net.serialization import RawData
 
 def get_timestamp_from_message(data: RawData) -> int:
@@ -7,7 +8,7 @@ def get_timestamp_from_message(data: RawData) -> int:
   elif hasattr(content, "timestamp") and isinstance(content.timestamp, int): timestamp = content.timestamp
   else: raise ValueError(f"could not get timestamp from message: {data}")
   if isinstance(timestamp, int): return timestamp
-  if isinstance(timestamp, float): return int(timestamp)
+  if isinstance(timestamp, float) and math.isfinite(timestamp): return int(timestamp)
   raise ValueError(f"could not get timestamp from message: {data}")
 
 def set_timestamp_on_message(data: RawData, timestamp: int):
diff --git a/streamtasks/system/tasks/calculator.py b/streamtasks/system/tasks/calculator.py
index f2157a7..9172a9a 100644
--- a/streamtasks/system/tasks/calculator.py
+++ b/streamtasks/system/tasks/calculator.py
@@ -12,6 +12,7 @@ from pydantic import BaseModel, ValidationError, model_validator
 from typing import Any
 import math
 from lark import Lark, ParseTree, Transformer
+from lark.exceptions import VisitError
 import re
 
 CalculatorGrammar = Lark(r"""
@@ -233,7 +234,7 @@ class CalculatorTask(Task):
           message = NumberMessage.model_validate(data.data)
           self.var_values[var_name] = message.value
           await self.send_value(message.timestamp)
-        except ValidationError: pass
+        except (ValidationError, VisitError): pass # NOTE: a VisitError when the formula has no value for these inputs
 
   async def send_value(self, timestamp: int):
     result: float = CalculatorEvalTransformer(CalculatorEvalContext(self.var_values)).transform(self.formula_ast)
diff --git a/streamtasks/system/tasks/timestampupdater.py b/streamtasks/system/tasks/timestampupdater.py
index 922b566..3cb8233 100644
--- a/streamtasks/system/tasks/timestampupdater.py
+++ b/streamtasks/system/tasks/timestampupdater.py
@@ -37,7 +37,7 @@ class TimestampUpdaterTask(Task):
             data = data.shallow_copy()
             set_timestamp_on_message(data, ref_time + self.config.time_offset)
             await self.out_topic.send(data)
-          except (ValueError, KeyError):
+          except (ValueError, KeyError, TypeError): # NOTE: a TypeError when the data has no fields at all
             if not self.config.fail_closed: await self.out_topic.send(data)
 
 class TimestampUpdaterTaskHost(TaskHost):
diff --git a/streamtasks/system/tasks/timetotext.py b/streamtasks/system/tasks/timetotext.py
index 9ff222b..9a06836 100644
--- a/streamtasks/system/tasks/timetotext.py
+++ b/streamtasks/system/tasks/timetotext.py
@@ -34,7 +34,7 @@ class TimeToTextTask(Task):
             timestamp = get_timestamp_from_message(data)
             value = datetime.fromtimestamp(timestamp / 1000).strftime(self.config.date_format)
             await self.out_topic.send(RawData(TextMessage(timestamp=timestamp, value=value).model_dump()))
-        except ValueError: pass
+        except (ValueError, OverflowError, OSError): pass # NOTE: no timestamp or not a date
 
 class TimeToTextTaskHost(TaskHost):
   @property
-- 
2.43.0


From f56b2fa907424ab7fa6ce0e73b4ef32393a975b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:11 +0000
Subject: [PATCH 049/102] fix: the pause state of a gate's output does not miss
 changes

---
 streamtasks/system/tasks/gate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/gate.py b/streamtasks/system/tasks/gate.py
index b58289e..89400f5 100644
--- a/streamtasks/system/tasks/gate.py
+++ b/streamtasks/system/tasks/gate.py
@@ -82,7 +82,8 @@ class GateTask(Task):
   async def run_out_pauser(self):
     while True:
       await self.out_topic.set_paused(self.state.get_output_paused(self.fail_mode))
-      await self.state.wait_change()
+      # NOTE: the state may have changed while that was sent
+      if self.out_topic.is_paused == self.state.get_output_paused(self.fail_mode): await self.state.wait_change()
   async def run_in_recv(self):
     while True:
       data = await self.in_topic.recv_data_control()
-- 
2.43.0


From bb123ecc08aaa39006a4ace7841818e19368136d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:11 +0000
Subject: [PATCH 050/102] fix: text that arrives while a string concatenator
 sends is not lost

---
 streamtasks/system/tasks/stringconcatenator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamtasks/system/tasks/stringconcatenator.py b/streamtasks/system/tasks/stringconcatenator.py
index da614d5..70e86d1 100644
--- a/streamtasks/system/tasks/stringconcatenator.py
+++ b/streamtasks/system/tasks/stringconcatenator.py
@@ -48,8 +48,8 @@ class StringConcatenatorTask(Task):
         else:
           message = NumberMessage.model_validate(data.data)
           if last_control <= 0.5 and message.value > 0.5 and len(self.value) > 0:
-            await self.out_topic.send(RawData(TextMessage(timestamp=message.timestamp, value=self.value).model_dump()))
-            self.value = ""
+            value, self.value = self.value, "" # NOTE: more may be received while this is sent
+            await self.out_topic.send(RawData(TextMessage(timestamp=message.timestamp, value=value).model_dump()))
           last_control = message.value
       except ValidationError: pass
 
-- 
2.43.0


From ae38e7c4a51d84f3d1dfe51544cbe26bca281115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:05 +0000
Subject: [PATCH 051/102] fix: a switch shows the pause state of the input it
 falls back to

---
 streamtasks/system/tasks/switch.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/switch.py b/streamtasks/system/tasks/switch.py
index db0cfc3..1b50735 100644
--- a/streamtasks/system/tasks/switch.py
+++ b/streamtasks/system/tasks/switch.py
@@ -54,7 +54,9 @@ class SwitchTask(Task):
       data = await topic.recv_data_control()
       try:
         if isinstance(data, TopicControlData):
-          if data.paused: self.control_values.pop(idx, None)
+          if data.paused:
+            self.control_values.pop(idx, None)
+            await self._update_paused()
         else:
           message = NumberMessage.model_validate(data.data)
           await self.set_value(idx, message.value)
@@ -62,6 +64,9 @@ class SwitchTask(Task):
 
   async def set_value(self, idx: int, value: float | int):
     self.control_values[idx] = value
+    await self._update_paused()
+
+  async def _update_paused(self):
     selected_index = self._get_selected_index()
     if selected_index != -1:
       await self.out_topic.set_paused(self.pairs[selected_index][0].is_paused)
-- 
2.43.0


From 1cabc8ebf9333d0a7f446e8998dcfb1527a06cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:12 +0000
Subject: [PATCH 052/102] fix: a media switch continues an input only from a
 keyframe after packets were left out

---
 streamtasks/system/tasks/media/mediaswitch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/streamtasks/system/tasks/media/mediaswitch.py b/streamtasks/system/tasks/media/mediaswitch.py
index 1e062a7..6331e3d 100644
--- a/streamtasks/system/tasks/media/mediaswitch.py
+++ b/streamtasks/system/tasks/media/mediaswitch.py
@@ -25,6 +25,8 @@ class MediaSwitchTask(SwitchTask):
             except ValidationError: pass
           if idx == self._active_index:
             await self.out_topic.send(data)
+      elif idx == self._active_index and not isinstance(data, TopicControlData):
+        self._active_index = -1 # NOTE: this packet is missing in the output, it has to start with a keyframe again
 
 class MediaSwitchTaskHost(TaskHost):
   @property
-- 
2.43.0


From 752a4a085ca3fa2dad51e776a50a32a417880fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:25 +0000
Subject: [PATCH 053/102] fix: a time buffer shows every pause and sends
 nothing early, buffers leave no files behind and can be cleared

---
 streamtasks/rawdatabuffer.py           | 10 +++++-----
 streamtasks/system/tasks/timebuffer.py | 22 ++++++++++++----------
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/streamtasks/rawdatabuffer.py b/streamtasks/rawdatabuffer.py
index de5fc8f..40956cd 100644
--- a/streamtasks/rawdatabuffer.py
+++ b/streamtasks/rawdatabuffer.py
@@ -1,22 +1,22 @@
 import dbm
 import os
+import shutil
 import tempfile
 from streamtasks.net.serialization import RawData
 
 class RawDataBuffer:
   def __init__(self) -> None:
     self._key_counter: int = 0
-    self._db_file = tempfile.mktemp(".db")
-    self._db = dbm.open(self._db_file, "c")
+    self._db_dir = tempfile.mkdtemp() # NOTE: dbm chooses the names of its files
+    self._db = dbm.open(os.path.join(self._db_dir, "buffer"), "c")
     self._index_map: list[str] = []
 
   def __del__(self):
     self._db.close()
-    os.remove(self._db_file)
+    shutil.rmtree(self._db_dir, ignore_errors=True)
 
   def clear(self):
-    self._db.clear()
-    self._index_map.clear()
+    while len(self._index_map) > 0: del self[-1]
 
   def append(self, data: RawData):
     self._index_map.append(str(self._key_counter))
diff --git a/streamtasks/system/tasks/timebuffer.py b/streamtasks/system/tasks/timebuffer.py
index 92e6206..4e6fbdf 100644
--- a/streamtasks/system/tasks/timebuffer.py
+++ b/streamtasks/system/tasks/timebuffer.py
@@ -5,7 +5,7 @@ from streamtasks.rawdatabuffer import RawDataBuffer
 from streamtasks.net.messages import TopicControlData
 from streamtasks.message.utils import get_timestamp_from_message
 from streamtasks.system.configurators import EditorFields, static_configurator
-from streamtasks.utils import AsyncTrigger, get_timestamp_ms
+from streamtasks.utils import get_timestamp_ms
 from streamtasks.system.task import Task, TaskHost
 from streamtasks.client import Client
 
@@ -24,7 +24,7 @@ class TimeBufferTask(Task):
     self.in_topic = self.client.in_topic(config.in_topic)
     self.config = config
 
-    self.update_trigger = AsyncTrigger()
+    self.updated = asyncio.Event()
     self.message_queue = RawDataBuffer()
     self.paused = False
 
@@ -39,11 +39,12 @@ class TimeBufferTask(Task):
       data = await self.in_topic.recv_data_control()
       if isinstance(data, TopicControlData): self.paused = data.paused
       else: self.message_queue.append(data)
-      self.update_trigger.trigger()
+      self.updated.set()
 
   async def run_sender_message(self):
     while True:
-      await self.update_trigger.wait()
+      await self.updated.wait()
+      self.updated.clear()
 
       while len(self.message_queue) > 1:
         next_message = self.message_queue[0]
@@ -64,17 +65,18 @@ class TimeBufferTask(Task):
 
   async def run_sender_clock(self):
     while True:
-      if len(self.message_queue) == 0: await self.update_trigger.wait()
-      await self.out_topic.set_paused(self.paused and len(self.message_queue) == 0)
+      self.updated.clear()
+      is_empty = len(self.message_queue) == 0
+      await self.out_topic.set_paused(self.paused and is_empty)
 
-      if len(self.message_queue) > 0:
-        next_message = self.message_queue[0]
+      if is_empty: await self.updated.wait()
+      else:
         try:
-          next_timestamp = get_timestamp_from_message(next_message)
+          next_timestamp = get_timestamp_from_message(self.message_queue[0])
           pending_ms = self.config.size - (get_timestamp_ms() - next_timestamp)
           if pending_ms > 0: await asyncio.sleep(pending_ms / 1000.)
         except ValueError: pass
-        finally: await self.out_topic.send(self.message_queue.popleft())
+        await self.out_topic.send(self.message_queue.popleft())
 
 class TimeBufferTaskHost(TaskHost):
   @property
-- 
2.43.0


From 3f0d2716f865509dc3dfd1aa3fdc1525b7c2baa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:49 +0000
Subject: [PATCH 054/102] fix: an interrupted announcement of a pause is
 repeated

---
 streamtasks/client/topic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/streamtasks/client/topic.py b/streamtasks/client/topic.py
index 1d45540..f56f7c4 100644
--- a/streamtasks/client/topic.py
+++ b/streamtasks/client/topic.py
@@ -232,7 +232,10 @@ class OutTopic(_TopicBase):
   async def set_paused(self, paused: bool):
     if paused != self._is_paused:
       self._is_paused = paused
-      await self._client.send_stream_control(self._topic, TopicControlData(paused=paused))
+      try: await self._client.send_stream_control(self._topic, TopicControlData(paused=paused))
+      except BaseException:
+        self._is_paused = not paused # nobody has been told
+        raise
 
   async def _set_registered(self, registered: bool):
     if registered: await self._client.register_out_topics([ self._topic ])
-- 
2.43.0


From ac4b6132599fc1a6185f24f8e7cb7c961835e7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:49 +0000
Subject: [PATCH 055/102] fix: a replay buffer stops playing with its task,
 repeats a single message without blocking everything and sends nothing after
 it is shown as paused

---
 streamtasks/system/tasks/replaybuffer.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/streamtasks/system/tasks/replaybuffer.py b/streamtasks/system/tasks/replaybuffer.py
index dc43f7a..f113267 100644
--- a/streamtasks/system/tasks/replaybuffer.py
+++ b/streamtasks/system/tasks/replaybuffer.py
@@ -33,7 +33,8 @@ class ReplayBufferTask(Task):
   async def run(self):
     async with self.out_topic, self.out_topic.RegisterContext(), self.in_topic, self.in_topic.RegisterContext(), self.play_topic, self.play_topic.RegisterContext():
       self.client.start()
-      await asyncio.gather(self.run_input_receiver(), self.run_play_receiver())
+      try: await asyncio.gather(self.run_input_receiver(), self.run_play_receiver())
+      finally: await self.stop_play()
 
   async def run_input_receiver(self):
     last_paused = False
@@ -73,21 +74,20 @@ class ReplayBufferTask(Task):
         except ValueError: pass
         await self.out_topic.send(data)
       if not self.config.loop: break
+      await asyncio.sleep(0.001) # NOTE: the messages may take no time at all
     await self.out_topic.set_paused(True)
 
   async def update_playing_state(self):
     if self.playing and self.play_task is None and len(self.buffer) > 0: self.play_task = asyncio.create_task(self.play())
     if not self.playing:
-      await self.out_topic.set_paused(True)
       await self.stop_play()
+      await self.out_topic.set_paused(True)
 
   async def stop_play(self):
-    if self.play_task is not None:
-      if not self.play_task.done():
-        self.play_task.cancel()
-        try: await self.play_task
-        except asyncio.CancelledError: pass
-      self.play_task = None
+    play_task, self.play_task = self.play_task, None
+    if play_task is not None and not play_task.done():
+      play_task.cancel()
+      await asyncio.wait([ play_task ])
 
 class ReplayBufferTaskHost(TaskHost):
   @property
-- 
2.43.0


From d16cb89445f3b3c821badbeaae33ce4371976198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:58 +0000
Subject: [PATCH 056/102] fix: a clock jump neither stops nor floods a
 repeater, a message detector misses no change

---
 streamtasks/system/tasks/messagedetector.py | 13 ++++++++-----
 streamtasks/system/tasks/repeater.py        |  6 +++---
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/streamtasks/system/tasks/messagedetector.py b/streamtasks/system/tasks/messagedetector.py
index 7e2c499..f211608 100644
--- a/streamtasks/system/tasks/messagedetector.py
+++ b/streamtasks/system/tasks/messagedetector.py
@@ -6,7 +6,7 @@ from streamtasks.net.messages import TopicControlData
 from streamtasks.system.configurators import EditorFields, static_configurator
 from streamtasks.system.task import Task, TaskHost
 from streamtasks.client import Client
-from streamtasks.utils import AsyncObservable, AsyncTrigger, TimeSynchronizer
+from streamtasks.utils import AsyncObservable, TimeSynchronizer
 import asyncio
 from enum import Enum
 from typing import Any
@@ -54,7 +54,7 @@ class MessageDetectorTask(Task):
     self.time_sync = TimeSynchronizer()
     self.in_topic = client.in_topic(config.in_topic)
     self.signal_topic = client.out_topic(config.signal_topic)
-    self.message_trigger = AsyncTrigger()
+    self.message_received = asyncio.Event()
     self.state = MessageDetectorState(self.config.fail_mode)
 
   async def run(self):
@@ -68,7 +68,7 @@ class MessageDetectorTask(Task):
       if isinstance(data, TopicControlData): self.state.input_paused = data.paused
       else:
         try:
-          self.message_trigger.trigger()
+          self.message_received.set()
           self.time_sync.update(get_timestamp_from_message(data))
           self.state.last_message_invalid = False
         except ValueError: self.state.last_message_invalid = True
@@ -77,13 +77,16 @@ class MessageDetectorTask(Task):
     if self.config.time_out < 0.001: return
     while True:
       try:
-        await asyncio.wait_for(self.message_trigger.wait(), self.config.time_out)
+        await asyncio.wait_for(self.message_received.wait(), self.config.time_out)
+        self.message_received.clear()
         self.state.timed_out = False
       except asyncio.TimeoutError: self.state.timed_out = True
 
   async def run_updater(self):
     while True:
-      await self.signal_topic.send(RawData(NumberMessage(timestamp=self.time_sync.time, value=float(self.state.signal)).model_dump()))
+      signal = self.state.signal
+      await self.signal_topic.send(RawData(NumberMessage(timestamp=self.time_sync.time, value=float(signal)).model_dump()))
+      if self.state.signal != signal: continue # changed while it was sent
       try: await asyncio.wait_for(self.state.wait_change(), timeout=self.config.repeat_interval or None)
       except asyncio.TimeoutError: pass
 
diff --git a/streamtasks/system/tasks/repeater.py b/streamtasks/system/tasks/repeater.py
index 301f5a8..b3f45a1 100644
--- a/streamtasks/system/tasks/repeater.py
+++ b/streamtasks/system/tasks/repeater.py
@@ -50,14 +50,14 @@ class RepeaterTask(Task):
 
   async def _run_sender(self):
     frame_counter = 0
-    t0: float | None = None
+    t0 = time.monotonic()
     delay = hertz_to_fintervall(self.config.rate)
 
     while True:
       if self.current_data is None:
         await self.data_trigger.wait()
         frame_counter = 0
-        t0 = time.time()
+        t0 = time.monotonic()
       if not self.out_topic.is_paused and self.current_data is not None:
         try:
           msg = self.current_data.shallow_copy()
@@ -65,7 +65,7 @@ class RepeaterTask(Task):
           await self.out_topic.send(msg)
         except ValueError: pass
       frame_counter += 1
-      wait_time = float(t0 + frame_counter * delay) - time.time()
+      wait_time = float(t0 + frame_counter * delay) - time.monotonic()
       if wait_time > 0: await asyncio.sleep(wait_time)
 
 class RepeaterTaskHost(TaskHost):
-- 
2.43.0


From d9d4580a6b6940bc5da745dfd9dd9ad550c26abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:55 +0000
Subject: [PATCH 057/102] fix: UI controls publish and show every last value

---
 streamtasks/system/tasks/ui/controlbase.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/streamtasks/system/tasks/ui/controlbase.py b/streamtasks/system/tasks/ui/controlbase.py
index 30172f6..a851a96 100644
--- a/streamtasks/system/tasks/ui/controlbase.py
+++ b/streamtasks/system/tasks/ui/controlbase.py
@@ -86,12 +86,14 @@ class UIBaseTask(Task, Generic[C, V]):
     @router.websocket_route("/value")
     @websocket_context_handler
     async def _(ctx: WebsocketContext):
+      value = self._value
+      await ctx.accept()
+      receive_disconnect_task = asyncio.create_task(ctx.receive_disconnect())
       try:
-        await ctx.accept()
-        receive_disconnect_task = asyncio.create_task(ctx.receive_disconnect())
         while ctx.connected:
-          await wait_with_dependencies(self.wait_value_changed(), [receive_disconnect_task])
-          await ctx.send_message(self._value.model_dump_json())
+          if self._value is value: await wait_with_dependencies(self.wait_value_changed(), [receive_disconnect_task])
+          value = self._value
+          await ctx.send_message(value.model_dump_json())
       finally:
         receive_disconnect_task.cancel()
         await ctx.close()
@@ -112,7 +114,9 @@ class UIControlBaseTask(UIBaseTask[C2, V]):
 
   async def run_other(self) -> AsyncContextManager:
     while True:
-      await self.send_value(self._value)
+      value = self._value
+      await self.send_value(value)
+      if self._value is not value: continue # changed while it was sent
       try:
         if self.config.repeat_interval > 0: await asyncio.wait_for(self.wait_value_changed(), self.config.repeat_interval)
         else: await self.wait_value_changed()
-- 
2.43.0


From 5ec25fd5d6b8e9a78ea198cb59abb2f282514bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:32 +0000
Subject: [PATCH 058/102] fix: a named output does not leave its topic paused
 for good

---
 streamtasks/system/tasks/namedoutput.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streamtasks/system/tasks/namedoutput.py b/streamtasks/system/tasks/namedoutput.py
index 6613579..9c7cf67 100644
--- a/streamtasks/system/tasks/namedoutput.py
+++ b/streamtasks/system/tasks/namedoutput.py
@@ -31,6 +31,7 @@ class NamedOutputTask(Task):
     out_topic = self.client.out_topic(NamedTopicResolvedResponseModel.model_validate(response).topic)
 
     async with self.in_topic, self.in_topic.RegisterContext(), out_topic, out_topic.RegisterContext():
+      await self.client.send_stream_control(out_topic.topic, TopicControlData(paused=False)) # NOTE: it may have been left paused by someone else
       while True:
         data = await self.in_topic.recv_data_control()
         if isinstance(data, TopicControlData): await out_topic.set_paused(data.paused)
-- 
2.43.0


From 58b6b759bf1802596f5d483d7ccc5d3092961803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:12 +0000
Subject: [PATCH 059/102] fix: whatever is shutting down is not cancelled again
 halfway through

---
 streamtasks/utils.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/streamtasks/utils.py b/streamtasks/utils.py
index 9936e4c..8ee8bfd 100644
--- a/streamtasks/utils.py
+++ b/streamtasks/utils.py
@@ -16,21 +16,23 @@ class AsyncTaskManager:
     self._frozen = default_frozen
     self._default_frozen = default_frozen
     self._tasks: list[tuple[int, asyncio.Task]] = []
+    self._cancel_lock = asyncio.Lock()
   def create(self, corroutine: CoroutineType, priority: int = 0):
     task = asyncio.create_task(corroutine)
     self._tasks.append((priority, task))
     task.add_done_callback(self._on_task_done)
     return task
-  async def cancel_all(self, msg: Any | None = None, timeout: float = 1):
-    self._frozen = True
-    while len(self._tasks) > 0:
-      lowest_prio = min((p for p, _ in self._tasks))
-      next_tasks = set((task for p, task in self._tasks if p == lowest_prio))
-      for task in next_tasks: task.cancel(msg)
-      try: await asyncio.wait(next_tasks, timeout=timeout)
-      except: pass
-      self._tasks = [ (priority, task) for priority, task in self._tasks if not task.done() ]
-    self._frozen = self._default_frozen
+  async def cancel_all(self, msg: Any | None = None, timeout: float = 5):
+    async with self._cancel_lock: # NOTE: a task that is shutting down must not be cancelled again by someone else
+      self._frozen = True
+      while len(self._tasks) > 0:
+        lowest_prio = min((p for p, _ in self._tasks))
+        next_tasks = set((task for p, task in self._tasks if p == lowest_prio))
+        for task in next_tasks: task.cancel(msg)
+        try: await asyncio.wait(next_tasks, timeout=timeout)
+        except: pass
+        self._tasks = [ (priority, task) for priority, task in self._tasks if not task.done() ]
+      self._frozen = self._default_frozen
   async def wait(self, timeout: float | None = None, return_when: str = "ALL_COMPLETED"):
     try: await asyncio.shield(asyncio.wait([task for _, task in self._tasks ], timeout=timeout, return_when=return_when))
     except asyncio.CancelledError: await self.cancel_all()
-- 
2.43.0


From 29b3ccffe4aea8b324a9d128b7d804f3000c384d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:29 +0000
Subject: [PATCH 060/102] fix: what a stopped node unregistered is not lost on
 its way out

---
 streamtasks/client/__init__.py |  8 --------
 streamtasks/system/task.py     | 10 ++++++++--
 streamtasks/system/task_web.py | 10 ++++++++--
 3 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/streamtasks/client/__init__.py b/streamtasks/client/__init__.py
index f432173..e719fc0 100644
--- a/streamtasks/client/__init__.py
+++ b/streamtasks/client/__init__.py
@@ -112,14 +112,6 @@ class Client:
       raise FetchError(response_data.body)
     return response_data.body
 
-  async def flush(self):
-    """Waits until everything sent so far has passed the switch this client is connected to."""
-    if self.address is None: raise Exception("No local address")
-    return_port = self.get_free_port()
-    async with FetchReponseReceiver(self, return_port) as receiver:
-      await self.send_to((self.address, return_port), RawData(FetchResponseMessage(body=None).model_dump()))
-      await receiver.get()
-
   async def enable_receiver(self, receiver: Receiver):
     self._receivers.append(receiver)
     if self._receive_task is None: self._start_receiving()
diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index bebb7ad..689b433 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -188,6 +188,10 @@ class TaskHost(Worker):
     self._registered_at_endpoints = [ ep for ep in self._registered_at_endpoints if ep!= endpoint ]
     await send_signal(self.client, endpoint, TaskConstants.SD_UNREGISTER_TASK_HOST, ModelWithStrId(id=self.id).model_dump())
 
+  async def confirm_unregistered(self, endpoint: EndpointOrAddress = NetworkAddressNames.TASK_MANAGER):
+    try: await self.client.fetch(endpoint, TaskConstants.FD_TM_GET_TASK_HOST, ModelWithStrId(id=self.id).model_dump())
+    except FetchError: pass # it is gone
+
   async def run(self):
     try:
       self.client = await self.create_client()
@@ -218,10 +222,12 @@ class TaskHost(Worker):
       running_tasks = list(self.tasks.values())
       for task in running_tasks: task.cancel()
       if len(running_tasks) > 0: await asyncio.wait(running_tasks, timeout=1) # NOTE: make configurable
-      unregister_tasks = [ asyncio.create_task(self.unregister(ep)) for ep in self._registered_at_endpoints ]
+      unregister_from = list(self._registered_at_endpoints)
+      unregister_tasks = [ asyncio.create_task(self.unregister(ep)) for ep in unregister_from ]
       if len(unregister_tasks) > 0:
         await asyncio.wait(unregister_tasks, timeout=1) # NOTE: make configurable
-        await asyncio.wait([ asyncio.create_task(self.client.flush()) ], timeout=1) # the switch must not stop before it has passed them on
+        confirm_tasks = [ asyncio.create_task(self.confirm_unregistered(ep)) for ep in unregister_from ]
+        await asyncio.wait(confirm_tasks, timeout=1) # the network must not stop before it has passed them on
       await self.shutdown()
       self.ready.clear()
 
diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index 9810da0..ee9d9dd 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -128,8 +128,8 @@ class TaskWebPathHandler(Worker):
         registered_at.append(reg_ep)
       await self.run_inner()
     finally:
-      for reg_ep in registered_at: await send_signal(self.client, reg_ep, TaskConstants.SD_TMW_UNREGISTER_PATH, ModelWithStrId(id=self.id).model_dump())
-      if len(registered_at) > 0: await asyncio.wait([ asyncio.create_task(self.client.flush()) ], timeout=1) # the switch must not stop before it has passed them on
+      unregister_tasks = [ asyncio.create_task(self.client.fetch(reg_ep, TaskConstants.SD_TMW_UNREGISTER_PATH, ModelWithStrId(id=self.id).model_dump())) for reg_ep in registered_at ]
+      if len(unregister_tasks) > 0: await asyncio.wait(unregister_tasks, timeout=1) # the network must not stop before it has passed them on
       await self.shutdown()
 
   @abstractmethod
@@ -234,6 +234,12 @@ class TaskWebBackend(Worker):
       self.path_registrations = [ reg for reg in self.path_registrations if reg.id != body.id ] + [ body ]
       await req.respond(None)
 
+    @server.route(TaskConstants.SD_TMW_UNREGISTER_PATH)
+    async def _(req: FetchRequest):
+      body = ModelWithStrId.model_validate(req.body)
+      self.path_registrations = [ reg for reg in self.path_registrations if reg.id != body.id ]
+      await req.respond(None)
+
     await server.run()
 
   async def run_signal_api(self):
-- 
2.43.0


From 5df87fab005634e153ecbca56b35ae82d629a91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:05 +0000
Subject: [PATCH 061/102] fix: a producer's consumers miss neither its last
 items nor its errors, and none of them is left waiting

---
 streamtasks/utils.py | 65 ++++++++++++++++++++------------------------
 1 file changed, 30 insertions(+), 35 deletions(-)

diff --git a/streamtasks/utils.py b/streamtasks/utils.py
index 8ee8bfd..d53c926 100644
--- a/streamtasks/utils.py
+++ b/streamtasks/utils.py
@@ -167,7 +167,9 @@ class AsyncProducer(Generic[T0]):
     self._entered_count: int = 0
     self._consumers: set['AsyncConsumer[T0]'] = set()
     self._enter_lock = asyncio.Lock()
+    self._stopping: bool = False
     self._ended: bool = False
+    self._error: Exception | None = None
 
   @abstractmethod
   async def run(self): pass
@@ -180,51 +182,48 @@ class AsyncProducer(Generic[T0]):
 
   async def close(self):
     self._on_ended()
-    self._stop()
-    if self._task is not None:
-      try: await self.wait_done()
-      except EOFError: pass
+    if self._task is not None and not self._task.done():
+      self._stop()
+      await self.wait_done()
 
   async def __aenter__(self):
     if self._ended: raise EOFError()
     async with self._enter_lock:
+      if self._stopping: await self.wait_done()
       self._entered_count += 1
-      if self._entered_count == 1:
-        if self._task is not None: await self.wait_done()
+      if self._task is None or self._task.done():
+        self._stopping = False
         self._task = asyncio.create_task(self._run())
 
   async def __aexit__(self, *_):
+    self._entered_count = max(self._entered_count - 1, 0)
     async with self._enter_lock:
-      self._entered_count = max(self._entered_count - 1, 0)
-      if self._entered_count == 0:
-        if self._task is not None:
-          self._stop()
-          try: await self.wait_done()
-          finally:  self._task = None
+      if self._entered_count == 0 and self._task is not None and not self._task.done():
+        self._stopping = True
+        self._stop()
+        await self.wait_done()
 
   def _stop(self): self._task.cancel()
   async def _run(self):
     try:
       if self._ended: raise EOFError()
       await self.run()
-    except EOFError:
-      self._on_ended()
-      raise
     except asyncio.CancelledError: pass
+    except Exception as e: self._on_ended(e)
 
-  def _on_ended(self):
+  def _on_ended(self, error: Exception | None = None):
+    if self._ended: return
     self._ended = True
+    self._error = error
     self.close_consumers()
 
-  async def wait_done(self):
-    try: await self._task
-    except asyncio.CancelledError: pass
+  async def wait_done(self): await asyncio.wait([self._task]) # NOTE: this leaves it running when the caller is cancelled
 
 class AsyncMPProducer(AsyncProducer[T0]):
   def __init__(self) -> None:
     super().__init__()
     self.stop_event = threading.Event()
-    self._loop: asyncio.BaseEventLoop
+    self._loop: asyncio.BaseEventLoop | None = None
     self._lock = asyncio.Lock()
 
   async def run(self):
@@ -234,12 +233,10 @@ class AsyncMPProducer(AsyncProducer[T0]):
   @abstractmethod
   def run_sync(self): pass
   def send_message(self, message: Any): self._loop.call_soon_threadsafe(super().send_message, message)
-  def close_consumers(self): self._loop.call_soon_threadsafe(super().close_consumers)
+  def close_consumers(self): (self._loop or asyncio.get_running_loop()).call_soon_threadsafe(super().close_consumers)
   async def wait_done(self):
-    try: await super().wait_done()
-    finally:
-      await self._lock.acquire() # make sure the inner has actually ended
-      self._lock.release()
+    await super().wait_done()
+    async with self._lock: pass # make sure the inner has actually ended
   def _stop(self): self.stop_event.set()
   async def _shielded_run(self):
     async with self._lock:
@@ -260,16 +257,14 @@ class AsyncConsumer(Generic[T1]):
   def unregister(self): self._producer._consumers.remove(self)
 
   async def get(self):
-    if len(self._queue) != 0: return self._queue.popleft()
-    if self._closed: raise EOFError()
-    _fut = self._trigger.wait()
-    async with self._producer:
-      while len(self._queue) == 0 and not self._closed:
-        await _fut
-        _fut = self._trigger.wait()
-      # TODO we need to do this in here to prevent double deques
-      if self._closed: raise EOFError()
-      return self._queue.popleft()
+    while len(self._queue) == 0:
+      if self._closed: raise self._producer._error or EOFError()
+      _fut = self._trigger.wait()
+      async with self._producer:
+        while len(self._queue) == 0 and not self._closed:
+          await _fut
+          _fut = self._trigger.wait()
+    return self._queue.popleft()
 
   def put(self, e: T1):
     if self.test_message(e):
-- 
2.43.0


From ac8fec9c03bc1e3cde95e088e0b52ef2f2a70a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:56 +0000
Subject: [PATCH 062/102] fix: a threaded media task does not pause its output
 before what came before the pause is sent, and scales with the volume of that
 time

---
 streamtasks/system/task.py                      |  1 +
 .../system/tasks/media/audiovolumemeter.py      | 13 ++++++++-----
 .../system/tasks/media/audiovolumescaler.py     | 14 +++++++++-----
 streamtasks/system/tasks/media/textrenderer.py  |  7 +++++--
 .../system/tasks/media/videoactivitymeter.py    | 17 ++++++++++-------
 streamtasks/system/tasks/media/videolayout.py   |  8 +++++---
 6 files changed, 38 insertions(+), 22 deletions(-)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index 689b433..19cc1e4 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -56,6 +56,7 @@ class SyncTask(Task):
   def run_sync(self): pass
 
   def send_data(self, topic: OutTopic, data: RawData): asyncio.run_coroutine_threadsafe(topic.send(data), self.loop)
+  def set_paused(self, topic: OutTopic, paused: bool): asyncio.run_coroutine_threadsafe(topic.set_paused(paused), self.loop)
 
 class ModelWithId(BaseModel):
   id: UUID4
diff --git a/streamtasks/system/tasks/media/audiovolumemeter.py b/streamtasks/system/tasks/media/audiovolumemeter.py
index 93627c6..f9da025 100644
--- a/streamtasks/system/tasks/media/audiovolumemeter.py
+++ b/streamtasks/system/tasks/media/audiovolumemeter.py
@@ -36,7 +36,7 @@ class AudioVolumeMeterTask(SyncTask):
     self.config = config
     sample_dtype = sample_format_to_dtype(self.config.sample_format)
     self.max_value = float(max_dtype_value(sample_dtype))
-    self.message_queue: queue.Queue[TimestampChuckMessage] = queue.Queue()
+    self.message_queue: queue.Queue[TimestampChuckMessage | NumberMessage | TopicControlData] = queue.Queue()
 
   @asynccontextmanager
   async def init(self):
@@ -50,8 +50,8 @@ class AudioVolumeMeterTask(SyncTask):
       try:
         data = await self.in_topic.recv_data_control()
         if isinstance(data, TopicControlData):
-          if data.paused: await self.out_topic.send(RawData(NumberMessage(timestamp=sync.time, value=0).model_dump()))
-          await self.out_topic.set_paused(data.paused)
+          if data.paused: self.message_queue.put(NumberMessage(timestamp=sync.time, value=0))
+          self.message_queue.put(data)
         else:
           message = TimestampChuckMessage.model_validate(data.data)
           sync.update(message.timestamp)
@@ -63,8 +63,11 @@ class AudioVolumeMeterTask(SyncTask):
     while not self.stop_event.is_set():
       try:
         message = self.message_queue.get(timeout=0.5)
-        for chunk, timestamp in chunker.next(audio_buffer_to_ndarray(message.data, self.config.sample_format)[0], message.timestamp):
-          self.send_data(self.out_topic, RawData(NumberMessage(timestamp=timestamp, value=np.sqrt(np.mean(np.abs(chunk) / self.max_value))).model_dump()))
+        if isinstance(message, TopicControlData): self.set_paused(self.out_topic, message.paused)
+        elif isinstance(message, NumberMessage): self.send_data(self.out_topic, RawData(message.model_dump()))
+        else:
+          for chunk, timestamp in chunker.next(audio_buffer_to_ndarray(message.data, self.config.sample_format)[0], message.timestamp):
+            self.send_data(self.out_topic, RawData(NumberMessage(timestamp=timestamp, value=np.sqrt(np.mean(np.abs(chunk) / self.max_value))).model_dump()))
       except queue.Empty: pass
 
 class AudioVolumeMeterTaskHost(TaskHost):
diff --git a/streamtasks/system/tasks/media/audiovolumescaler.py b/streamtasks/system/tasks/media/audiovolumescaler.py
index 8c417bd..6282831 100644
--- a/streamtasks/system/tasks/media/audiovolumescaler.py
+++ b/streamtasks/system/tasks/media/audiovolumescaler.py
@@ -46,7 +46,7 @@ class AudioVolumeScalerTask(SyncTask):
     self.out_topic = self.client.out_topic(config.out_topic)
     self.config = config
     self.scale = config.default_scale
-    self.message_queue: queue.Queue[TimestampChuckMessage] = queue.Queue()
+    self.message_queue: queue.Queue[TopicControlData | tuple[TimestampChuckMessage, float]] = queue.Queue()
 
   @asynccontextmanager
   async def init(self):
@@ -71,9 +71,13 @@ class AudioVolumeScalerTask(SyncTask):
 
     while not self.stop_event.is_set():
       try:
-        message = self.message_queue.get(timeout=0.5)
+        item = self.message_queue.get(timeout=0.5)
+        if isinstance(item, TopicControlData):
+          self.set_paused(self.out_topic, item.paused)
+          continue
+        message, scale = item
         samples = audio_buffer_to_samples(message.data, sample_format=self.config.sample_format, channels=self.config.channels)
-        samples = np.clip(samples * self.scale, samples_dtype_min_max[0], samples_dtype_min_max[1]).astype(samples_dtype)
+        samples = np.clip(samples * scale, samples_dtype_min_max[0], samples_dtype_min_max[1]).astype(samples_dtype)
         self.send_data(self.out_topic, RawData(TimestampChuckMessage(timestamp=message.timestamp, data=samples.tobytes("C")).model_dump()))
       except queue.Empty: pass
 
@@ -92,8 +96,8 @@ class AudioVolumeScalerTask(SyncTask):
     while True:
       try:
         data = await self.in_topic.recv_data_control()
-        if isinstance(data, TopicControlData): await self.out_topic.set_paused(data.paused)
-        else: self.message_queue.put(TimestampChuckMessage.model_validate(data.data))
+        if isinstance(data, TopicControlData): self.message_queue.put(data)
+        else: self.message_queue.put((TimestampChuckMessage.model_validate(data.data), self.scale))
       except (ValidationError, ValueError): pass
 
 class AudioVolumeScalerTaskHost(TaskHost):
diff --git a/streamtasks/system/tasks/media/textrenderer.py b/streamtasks/system/tasks/media/textrenderer.py
index ae500b5..db2ffa0 100644
--- a/streamtasks/system/tasks/media/textrenderer.py
+++ b/streamtasks/system/tasks/media/textrenderer.py
@@ -60,7 +60,7 @@ class TextRendererTask(SyncTask):
     self.out_topic = self.client.out_topic(config.out_topic)
     self.in_topic = self.client.in_topic(config.in_topic)
     self.config = config
-    self.message_queue: queue.Queue[TextMessage] = queue.Queue()
+    self.message_queue: queue.Queue[TextMessage | TopicControlData] = queue.Queue()
 
   @asynccontextmanager
   async def init(self):
@@ -72,7 +72,7 @@ class TextRendererTask(SyncTask):
     while True:
       try:
         data = await self.in_topic.recv_data_control()
-        if isinstance(data, TopicControlData): await self.out_topic.set_paused(data.paused)
+        if isinstance(data, TopicControlData): self.message_queue.put(data)
         else: self.message_queue.put(TextMessage.model_validate(data.data))
       except (ValidationError, ValueError): pass
 
@@ -82,6 +82,9 @@ class TextRendererTask(SyncTask):
     while not self.stop_event.is_set():
       try:
         message = self.message_queue.get(timeout=0.5)
+        if isinstance(message, TopicControlData):
+          self.set_paused(self.out_topic, message.paused)
+          continue
         image = Image.new(pil_mode, (self.config.width, self.config.height))
         draw = ImageDraw.Draw(image)
         draw.text((self.config.x, self.config.y), message.value, font=font, fill=self.config.font_color)
diff --git a/streamtasks/system/tasks/media/videoactivitymeter.py b/streamtasks/system/tasks/media/videoactivitymeter.py
index 5ca58b0..831df7f 100644
--- a/streamtasks/system/tasks/media/videoactivitymeter.py
+++ b/streamtasks/system/tasks/media/videoactivitymeter.py
@@ -30,7 +30,7 @@ class VideoActivityMeterTask(SyncTask):
     self.out_topic = self.client.out_topic(config.out_topic)
     self.in_topic = self.client.in_topic(config.in_topic)
     self.config = config
-    self.message_queue: queue.Queue[TimestampChuckMessage] = queue.Queue()
+    self.message_queue: queue.Queue[TimestampChuckMessage | NumberMessage | TopicControlData] = queue.Queue()
 
   @asynccontextmanager
   async def init(self):
@@ -44,8 +44,8 @@ class VideoActivityMeterTask(SyncTask):
       try:
         data = await self.in_topic.recv_data_control()
         if isinstance(data, TopicControlData):
-          if data.paused: await self.out_topic.send(RawData(NumberMessage(timestamp=sync.time, value=0).model_dump()))
-          await self.out_topic.set_paused(data.paused)
+          if data.paused: self.message_queue.put(NumberMessage(timestamp=sync.time, value=0))
+          self.message_queue.put(data)
         else:
           message = TimestampChuckMessage.model_validate(data.data)
           sync.update(message.timestamp)
@@ -58,10 +58,13 @@ class VideoActivityMeterTask(SyncTask):
     while not self.stop_event.is_set():
       try:
         message = self.message_queue.get(timeout=timeout)
-        bitmap = video_buffer_to_ndarray(message.data, self.config.width, self.config.height)
-        if last_bitmap is not None:
-          self.send_data(self.out_topic, RawData(NumberMessage(timestamp=message.timestamp, value=np.abs(last_bitmap - bitmap).flatten().mean()).model_dump()))
-        last_bitmap = bitmap
+        if isinstance(message, TopicControlData): self.set_paused(self.out_topic, message.paused)
+        elif isinstance(message, NumberMessage): self.send_data(self.out_topic, RawData(message.model_dump()))
+        else:
+          bitmap = video_buffer_to_ndarray(message.data, self.config.width, self.config.height)
+          if last_bitmap is not None:
+            self.send_data(self.out_topic, RawData(NumberMessage(timestamp=message.timestamp, value=np.abs(last_bitmap - bitmap).flatten().mean()).model_dump()))
+          last_bitmap = bitmap
       except queue.Empty: pass
 
 class VideoActivityMeterTaskHost(TaskHost):
diff --git a/streamtasks/system/tasks/media/videolayout.py b/streamtasks/system/tasks/media/videolayout.py
index 36344db..0f5ddd7 100644
--- a/streamtasks/system/tasks/media/videolayout.py
+++ b/streamtasks/system/tasks/media/videolayout.py
@@ -57,7 +57,7 @@ class VideoLayoutTask(SyncTask):
     self.in_topic = self.client.in_topic(config.in_topic)
     self.out_topic = self.client.out_topic(config.out_topic)
     self.config = config
-    self.message_queue: queue.Queue[TimestampChuckMessage] = queue.Queue()
+    self.message_queue: queue.Queue[TimestampChuckMessage | TopicControlData] = queue.Queue()
 
   @asynccontextmanager
   async def init(self):
@@ -69,8 +69,7 @@ class VideoLayoutTask(SyncTask):
     while True:
       try:
         data = await self.in_topic.recv_data_control()
-        if isinstance(data, TopicControlData):
-          await self.out_topic.set_paused(data.paused)
+        if isinstance(data, TopicControlData): self.message_queue.put(data)
         else:
           message = TimestampChuckMessage.model_validate(data.data)
           self.message_queue.put(message)
@@ -81,6 +80,9 @@ class VideoLayoutTask(SyncTask):
     while not self.stop_event.is_set():
       try:
         message = self.message_queue.get(timeout=timeout)
+        if isinstance(message, TopicControlData):
+          self.set_paused(self.out_topic, message.paused)
+          continue
         arr = video_buffer_to_ndarray(message.data, self.config.in_width, self.config.in_height)
         arr = cv2.resize(arr, (self.config.place_width, self.config.place_height), interpolation=cv2.INTER_LINEAR)
         arr = arr[:self.config.apply_height,:self.config.apply_width,:]
-- 
2.43.0


From 579a07c87995c2b13944b95c56b64e1ddc5da9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:27 +0000
Subject: [PATCH 063/102] fix: malformed audio or video does not end the task
 that gets it

---
 streamtasks/system/tasks/media/audioencoder.py       | 3 ++-
 streamtasks/system/tasks/media/audiomixer.py         | 2 +-
 streamtasks/system/tasks/media/audiovolumemeter.py   | 2 +-
 streamtasks/system/tasks/media/audiovolumescaler.py  | 2 +-
 streamtasks/system/tasks/media/videoactivitymeter.py | 4 ++--
 streamtasks/system/tasks/media/videoencoder.py       | 6 ++++--
 streamtasks/system/tasks/media/videolayout.py        | 3 ++-
 7 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/streamtasks/system/tasks/media/audioencoder.py b/streamtasks/system/tasks/media/audioencoder.py
index ab220ad..93dd492 100644
--- a/streamtasks/system/tasks/media/audioencoder.py
+++ b/streamtasks/system/tasks/media/audioencoder.py
@@ -62,8 +62,9 @@ class AudioEncoderTask(SyncTask):
     while not self.stop_event.is_set():
       try:
         message = self.frame_data_queue.get(timeout=timeout)
+        try: frame = AudioFrame.from_buffer(message.data, self.config.in_sample_format, self.config.channels, self.config.rate)
+        except ValueError: continue # malformed data
         if self.t0 is None: self.t0 = message.timestamp
-        frame = AudioFrame.from_buffer(message.data, self.config.in_sample_format, self.config.channels, self.config.rate)
         frame.set_ts(Fraction(message.timestamp - self.t0, 1000), self.time_base)
         packets = self.encoder.encode_sync(frame)
         for packet in packets:
diff --git a/streamtasks/system/tasks/media/audiomixer.py b/streamtasks/system/tasks/media/audiomixer.py
index 628cfe8..dae4f14 100644
--- a/streamtasks/system/tasks/media/audiomixer.py
+++ b/streamtasks/system/tasks/media/audiomixer.py
@@ -94,7 +94,7 @@ class AudioMixerTask(Task):
             ddebug_value("track sample rate", id(track.sequencer), sample_count * 1000 / (message.timestamp - t0))
           track.sequencer.insert(Fraction(message.timestamp, 1000), samples)
           await self.send_next()
-      except ValidationError: pass
+      except (ValidationError, ValueError): pass
 
   async def send_next(self):
     if any(True for track in self.audio_tracks if not track.is_paused and not track.sequencer.started): return # not ready yet
diff --git a/streamtasks/system/tasks/media/audiovolumemeter.py b/streamtasks/system/tasks/media/audiovolumemeter.py
index f9da025..b27f11e 100644
--- a/streamtasks/system/tasks/media/audiovolumemeter.py
+++ b/streamtasks/system/tasks/media/audiovolumemeter.py
@@ -68,7 +68,7 @@ class AudioVolumeMeterTask(SyncTask):
         else:
           for chunk, timestamp in chunker.next(audio_buffer_to_ndarray(message.data, self.config.sample_format)[0], message.timestamp):
             self.send_data(self.out_topic, RawData(NumberMessage(timestamp=timestamp, value=np.sqrt(np.mean(np.abs(chunk) / self.max_value))).model_dump()))
-      except queue.Empty: pass
+      except (queue.Empty, ValueError): pass
 
 class AudioVolumeMeterTaskHost(TaskHost):
   @property
diff --git a/streamtasks/system/tasks/media/audiovolumescaler.py b/streamtasks/system/tasks/media/audiovolumescaler.py
index 6282831..7dce886 100644
--- a/streamtasks/system/tasks/media/audiovolumescaler.py
+++ b/streamtasks/system/tasks/media/audiovolumescaler.py
@@ -79,7 +79,7 @@ class AudioVolumeScalerTask(SyncTask):
         samples = audio_buffer_to_samples(message.data, sample_format=self.config.sample_format, channels=self.config.channels)
         samples = np.clip(samples * scale, samples_dtype_min_max[0], samples_dtype_min_max[1]).astype(samples_dtype)
         self.send_data(self.out_topic, RawData(TimestampChuckMessage(timestamp=message.timestamp, data=samples.tobytes("C")).model_dump()))
-      except queue.Empty: pass
+      except (queue.Empty, ValueError): pass
 
   async def _run_recv_scale(self):
     while True:
diff --git a/streamtasks/system/tasks/media/videoactivitymeter.py b/streamtasks/system/tasks/media/videoactivitymeter.py
index 831df7f..45b6239 100644
--- a/streamtasks/system/tasks/media/videoactivitymeter.py
+++ b/streamtasks/system/tasks/media/videoactivitymeter.py
@@ -62,10 +62,10 @@ class VideoActivityMeterTask(SyncTask):
         elif isinstance(message, NumberMessage): self.send_data(self.out_topic, RawData(message.model_dump()))
         else:
           bitmap = video_buffer_to_ndarray(message.data, self.config.width, self.config.height)
-          if last_bitmap is not None:
+          if last_bitmap is not None and last_bitmap.shape == bitmap.shape:
             self.send_data(self.out_topic, RawData(NumberMessage(timestamp=message.timestamp, value=np.abs(last_bitmap - bitmap).flatten().mean()).model_dump()))
           last_bitmap = bitmap
-      except queue.Empty: pass
+      except (queue.Empty, ValueError): pass
 
 class VideoActivityMeterTaskHost(TaskHost):
   @property
diff --git a/streamtasks/system/tasks/media/videoencoder.py b/streamtasks/system/tasks/media/videoencoder.py
index 3e9fccb..19fdb1c 100644
--- a/streamtasks/system/tasks/media/videoencoder.py
+++ b/streamtasks/system/tasks/media/videoencoder.py
@@ -69,9 +69,11 @@ class VideoEncoderTask(SyncTask):
     while not self.stop_event.is_set():
       try:
         message = self.frame_data_queue.get(timeout=timeout)
+        try:
+          bitmap = video_buffer_to_ndarray(message.data, self.config.width, self.config.height)
+          frame = VideoFrame.from_ndarray(bitmap, self.config.in_pixel_format)
+        except ValueError: continue # malformed data
         if self.t0 is None: self.t0 = message.timestamp
-        bitmap = video_buffer_to_ndarray(message.data, self.config.width, self.config.height)
-        frame = VideoFrame.from_ndarray(bitmap, self.config.in_pixel_format)
         frame.set_ts(Fraction(message.timestamp - self.t0, 1000), self.time_base)
         packets = self.encoder.encode_sync(frame)
         for packet in packets:
diff --git a/streamtasks/system/tasks/media/videolayout.py b/streamtasks/system/tasks/media/videolayout.py
index 0f5ddd7..cea3c88 100644
--- a/streamtasks/system/tasks/media/videolayout.py
+++ b/streamtasks/system/tasks/media/videolayout.py
@@ -84,13 +84,14 @@ class VideoLayoutTask(SyncTask):
           self.set_paused(self.out_topic, message.paused)
           continue
         arr = video_buffer_to_ndarray(message.data, self.config.in_width, self.config.in_height)
+        if arr.shape != (self.config.in_height, self.config.in_width, 4): raise ValueError("Invalid image size!")
         arr = cv2.resize(arr, (self.config.place_width, self.config.place_height), interpolation=cv2.INTER_LINEAR)
         arr = arr[:self.config.apply_height,:self.config.apply_width,:]
         assert arr.dtype == np.uint8, "not uint8"
         out_data = np.zeros((self.config.out_height, self.config.out_width, 4), dtype=np.uint8)
         out_data[self.config.place_top_offset:self.config.place_top_offset + arr.shape[0], self.config.place_left_offset:self.config.place_left_offset + arr.shape[1]] = arr
         self.send_data(self.out_topic, RawData(TimestampChuckMessage(timestamp=message.timestamp, data=out_data.tobytes("C")).model_dump()))
-      except queue.Empty: pass
+      except (queue.Empty, ValueError): pass
 
 class VideoLayoutTaskHost(TaskHost):
   @property
-- 
2.43.0


From 19b1dff4434054a0378f1ba347a6e43c777b1b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:27 +0000
Subject: [PATCH 064/102] fix: the volume and activity meters do not wrap
 around

---
 streamtasks/system/tasks/media/audiovolumemeter.py   | 2 +-
 streamtasks/system/tasks/media/videoactivitymeter.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamtasks/system/tasks/media/audiovolumemeter.py b/streamtasks/system/tasks/media/audiovolumemeter.py
index b27f11e..cebdf6c 100644
--- a/streamtasks/system/tasks/media/audiovolumemeter.py
+++ b/streamtasks/system/tasks/media/audiovolumemeter.py
@@ -67,7 +67,7 @@ class AudioVolumeMeterTask(SyncTask):
         elif isinstance(message, NumberMessage): self.send_data(self.out_topic, RawData(message.model_dump()))
         else:
           for chunk, timestamp in chunker.next(audio_buffer_to_ndarray(message.data, self.config.sample_format)[0], message.timestamp):
-            self.send_data(self.out_topic, RawData(NumberMessage(timestamp=timestamp, value=np.sqrt(np.mean(np.abs(chunk) / self.max_value))).model_dump()))
+            self.send_data(self.out_topic, RawData(NumberMessage(timestamp=timestamp, value=np.sqrt(np.mean(np.abs(chunk.astype(np.float64)) / self.max_value))).model_dump()))
       except (queue.Empty, ValueError): pass
 
 class AudioVolumeMeterTaskHost(TaskHost):
diff --git a/streamtasks/system/tasks/media/videoactivitymeter.py b/streamtasks/system/tasks/media/videoactivitymeter.py
index 45b6239..d9b2dc6 100644
--- a/streamtasks/system/tasks/media/videoactivitymeter.py
+++ b/streamtasks/system/tasks/media/videoactivitymeter.py
@@ -63,7 +63,7 @@ class VideoActivityMeterTask(SyncTask):
         else:
           bitmap = video_buffer_to_ndarray(message.data, self.config.width, self.config.height)
           if last_bitmap is not None and last_bitmap.shape == bitmap.shape:
-            self.send_data(self.out_topic, RawData(NumberMessage(timestamp=message.timestamp, value=np.abs(last_bitmap - bitmap).flatten().mean()).model_dump()))
+            self.send_data(self.out_topic, RawData(NumberMessage(timestamp=message.timestamp, value=np.abs(last_bitmap.astype(np.float64) - bitmap).flatten().mean()).model_dump()))
           last_bitmap = bitmap
       except (queue.Empty, ValueError): pass
 
-- 
2.43.0


From fc2b9654339b7916b2f0c7893881defc7ba2e99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:27 +0000
Subject: [PATCH 065/102] fix: u8 samples are unsigned

---
 streamtasks/media/audio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamtasks/media/audio.py b/streamtasks/media/audio.py
index 93ddaf6..ca767cc 100644
--- a/streamtasks/media/audio.py
+++ b/streamtasks/media/audio.py
@@ -23,8 +23,8 @@ _SAMPLE_FORMAT_NP_2_AV_INFO: dict[str, tuple[bool, type[np.dtype]]] = {
   "s32p": (True, np.int32),
   "s64": (False, np.int64),
   "s64p": (True, np.int64),
-  "u8": (False, np.int8),
-  "u8p": (True, np.int8),
+  "u8": (False, np.uint8),
+  "u8p": (True, np.uint8),
 }
 
 def get_audio_bytes_per_time_sample(sample_format: str, channels: int): # time sample != sample, time sample has all channels
-- 
2.43.0


From 0f06a913616aafbb2572382d29dbc13a8619a51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:53 +0000
Subject: [PATCH 066/102] fix: an audio mix that gets too loud is clipped, it
 does not wrap around

---
 streamtasks/system/tasks/media/audiomixer.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/streamtasks/system/tasks/media/audiomixer.py b/streamtasks/system/tasks/media/audiomixer.py
index dae4f14..276af89 100644
--- a/streamtasks/system/tasks/media/audiomixer.py
+++ b/streamtasks/system/tasks/media/audiomixer.py
@@ -42,6 +42,12 @@ class AudioMixerConfigBase(BaseModel):
 class AudioMixerConfig(AudioMixerConfigBase):
   out_topic: int
 
+def mix_samples(tracks: list[np.ndarray]):
+  dtype = tracks[0].dtype
+  if not np.issubdtype(dtype, np.integer): return sum(tracks)
+  info = np.iinfo(dtype)
+  return np.clip(np.sum(tracks, axis=0, dtype=np.int64), info.min, info.max).astype(dtype)
+
 @dataclass
 class AudioTrackContext:
   topic: InTopic
@@ -104,7 +110,7 @@ class AudioMixerTask(Task):
     num_sample_counts = min(track.sequencer.get_max_samples(target_time) for track in self.audio_tracks if not track.is_paused)
     if num_sample_counts <= 0: return
 
-    result: np.ndarray | None = None
+    track_samples: list[np.ndarray] = []
     for track in self.audio_tracks:
       if DEBUG_MIXER() and track.sequencer.start_time:
         ddebug_value("track start", id(track.sequencer), track.sequencer.start_time)
@@ -112,10 +118,10 @@ class AudioMixerTask(Task):
       if track.sequencer.started:
         new_samples = track.sequencer.pop_start(target_time, num_sample_counts)
         assert new_samples.shape[0] == num_sample_counts, "wrong amount of samples from sequencer!"
-        if result is not None: result = result + new_samples
-        else: result = new_samples
+        track_samples.append(new_samples)
       if track.is_paused: track.sequencer.reset()
 
+    result = mix_samples(track_samples)
     if result.size != 0:
       await self.out_topic.send(RawData(TimestampChuckMessage(timestamp=round(target_time * 1000), data=result.tobytes("C")).model_dump()))
 
-- 
2.43.0


From b5a826a4dfc73f67a3cbe2e41752a8dea439dea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:53 +0000
Subject: [PATCH 067/102] fix: the video mixer drops frames that have the wrong
 size

---
 streamtasks/system/tasks/media/videomixer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/media/videomixer.py b/streamtasks/system/tasks/media/videomixer.py
index d97ab30..116792e 100644
--- a/streamtasks/system/tasks/media/videomixer.py
+++ b/streamtasks/system/tasks/media/videomixer.py
@@ -56,6 +56,9 @@ class VideoMixerConfigBase(BaseModel):
     colors = dict(zip("rgba", (int(self.bgcolor_hex[1:3], 16), int(self.bgcolor_hex[3:5], 16), int(self.bgcolor_hex[5:7], 16), 255)))
     return np.array([ colors[c] for c in self.pixel_format.lower() ], dtype=np.uint8)
 
+  @property
+  def frame_size(self): return self.width * self.height * 4
+
 class VideoMixerConfig(VideoMixerConfigBase):
   out_topic: int
 
@@ -105,8 +108,10 @@ class VideoMixerTask(SyncTask):
         data = await track.topic.recv_data_control()
         if isinstance(data, TopicControlData): track.last_message = None
         else:
+          message = TimestampChuckMessage.model_validate(data.data)
+          if len(message.data) != self.config.frame_size: continue # malformed data
           if last_frame_count == self.frame_count: self.submit_job()
-          track.last_message = TimestampChuckMessage.model_validate(data.data)
+          track.last_message = message
           last_frame_count = self.frame_count
       except ValidationError: pass
 
-- 
2.43.0


From 65f63c269fc53bd1cb1210de769e5cf63df54611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:53 +0000
Subject: [PATCH 068/102] fix: the video mixer puts its frames on the
 background it is configured with

---
 streamtasks/system/tasks/media/videomixer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/media/videomixer.py b/streamtasks/system/tasks/media/videomixer.py
index 116792e..173c4dd 100644
--- a/streamtasks/system/tasks/media/videomixer.py
+++ b/streamtasks/system/tasks/media/videomixer.py
@@ -126,10 +126,11 @@ class VideoMixerTask(SyncTask):
 
   def run_sync(self):
     timeout = 2 / self.config.rate
+    background = self.config.bgcolor.tobytes() * (self.config.width * self.config.height)
     while not self.stop_event.is_set():
       try:
         job = self.job_queue.get(timeout=timeout)
-        result = merge_images([ frame for frame in job.frames ], self.config.alpha_front)
+        result = merge_images([ background, *job.frames ], self.config.alpha_front)
         self.send_data(self.out_topic, RawData(TimestampChuckMessage(timestamp=job.timestamp, data=result).model_dump()))
       except queue.Empty: pass
 
-- 
2.43.0


From a009f038c918e20d688cde9f4e97ab3e8e97db2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:18 +0000
Subject: [PATCH 069/102] fix: a packet to be decoded at time 0 keeps that time

---
 streamtasks/media/packet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/media/packet.py b/streamtasks/media/packet.py
index b3caefe..7df032c 100644
--- a/streamtasks/media/packet.py
+++ b/streamtasks/media/packet.py
@@ -28,7 +28,7 @@ class MediaPacket:
   def from_av_packet(packet: av.Packet, time_base: Fraction):
     if packet.time_base is None or packet.pts is None: raise ValueError("Expected time_base and pts on av.Packet!")
     time_base_factor = float(packet.time_base / time_base)
-    rel_dts = int((packet.pts - (packet.dts or packet.pts)) * time_base_factor)
+    rel_dts = int((packet.pts - (packet.pts if packet.dts is None else packet.dts)) * time_base_factor)
     pts = int(packet.pts * time_base_factor)
     return MediaPacket(bytes(packet), pts, rel_dts, packet.is_keyframe)
 
-- 
2.43.0


From dc699665b6cf14ddfb98691ffcf87f415b83fb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:18 +0000
Subject: [PATCH 070/102] fix: the video decoder reads its input in the input's
 pixel format and shows frames at their presentation time

---
 streamtasks/system/tasks/media/videodecoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamtasks/system/tasks/media/videodecoder.py b/streamtasks/system/tasks/media/videodecoder.py
index b6528de..2bc3b67 100644
--- a/streamtasks/system/tasks/media/videodecoder.py
+++ b/streamtasks/system/tasks/media/videodecoder.py
@@ -38,7 +38,7 @@ class VideoDecoderTask(Task):
       width=config.width,
       height=config.height,
       frame_rate=config.rate,
-      pixel_format=config.out_pixel_format,
+      pixel_format=config.in_pixel_format,
       codec=config.decoder, options=config.codec_options)
     self.decoder = codec_info.get_decoder()
 
@@ -54,7 +54,7 @@ class VideoDecoderTask(Task):
             frames: list[VideoFrame] = await self.decoder.decode(message.packet)
             for frame in frames: # TODO: endianness
               bitmap = frame.convert(width=self.config.width, height=self.config.height, pixel_format=self.config.out_pixel_format).to_ndarray()
-              await self.out_topic.send(RawData(TimestampChuckMessage(timestamp=self.t0 + int(frame.dtime * 1000), data=bitmap.tobytes("C")).model_dump()))
+              await self.out_topic.send(RawData(TimestampChuckMessage(timestamp=self.t0 + int(frame.ptime * 1000), data=bitmap.tobytes("C")).model_dump()))
           except ValidationError: pass
     finally:
       self.decoder.close()
-- 
2.43.0


From 608fe3f91ab3206494b86a3280d5da74a28df22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:18 +0000
Subject: [PATCH 071/102] fix: video with a frame rate that is not a whole
 number can be encoded and decoded

---
 streamtasks/media/container.py | 2 +-
 streamtasks/media/video.py     | 2 +-
 streamtasks/utils.py           | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/streamtasks/media/container.py b/streamtasks/media/container.py
index b63ffde..df85709 100644
--- a/streamtasks/media/container.py
+++ b/streamtasks/media/container.py
@@ -172,7 +172,7 @@ class OutputContainer:
   def add_video_stream(self, codec_info: VideoCodecInfo):
     time_base = codec_info.time_base
     if time_base is None: raise ValueError("time_base must not be None")
-    stream = self._container.add_stream(codec_name=codec_info.codec, rate=codec_info.frame_rate, width=codec_info.width, height=codec_info.height, format=codec_info.to_av_format(), options=codec_info.options)
+    stream = self._container.add_stream(codec_name=codec_info.codec, rate=1 / time_base, width=codec_info.width, height=codec_info.height, format=codec_info.to_av_format(), options=codec_info.options)
     return AVOutputStream(self._ctx, time_base, stream)
 
   def add_audio_stream(self, codec_info: AudioCodecInfo):
diff --git a/streamtasks/media/video.py b/streamtasks/media/video.py
index da0150c..40c7465 100644
--- a/streamtasks/media/video.py
+++ b/streamtasks/media/video.py
@@ -92,7 +92,7 @@ class VideoCodecInfo(CodecInfo[VideoFrame]):
     if mode not in ('r', 'w'): raise ValueError(f'Invalid mode: {mode}. Must be "r" or "w".')
     ctx: av.video.codeccontext.VideoCodecContext = av.video.codeccontext.VideoCodecContext.create(self.codec, mode)
     ctx.format = self.to_av_format()
-    ctx.framerate = self.frame_rate
+    ctx.framerate = 1 / self.time_base
 
     apply_options_to_codec_context(ctx, self.options)
 
diff --git a/streamtasks/utils.py b/streamtasks/utils.py
index d53c926..2287467 100644
--- a/streamtasks/utils.py
+++ b/streamtasks/utils.py
@@ -337,4 +337,4 @@ def make_json_serializable(v: Any):
   if isinstance(v, list): return [ make_json_serializable(v) for v in v ]
   return repr(v)
 
-def hertz_to_fintervall(f: int | float): return Fraction(1, int(f)) if int(f) == f else Fraction(1 / f)
+def hertz_to_fintervall(f: int | float): return Fraction(1, int(f)) if int(f) == f else 1 / Fraction(f).limit_denominator(100000)
-- 
2.43.0


From ec24852091ef9488ecbed293a76be54f66ecc4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:46 +0000
Subject: [PATCH 072/102] fix: two video frames close to each other are not
 encoded for the same time

---
 streamtasks/media/codec.py                     | 2 +-
 streamtasks/system/tasks/media/videoencoder.py | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/streamtasks/media/codec.py b/streamtasks/media/codec.py
index ef9bfc3..69f6835 100644
--- a/streamtasks/media/codec.py
+++ b/streamtasks/media/codec.py
@@ -27,7 +27,7 @@ class Frame(ABC, Generic[T]):
     else: return self.frame.time_base * self.frame.pts
 
   def set_ts(self, time: Fraction, time_base: Fraction):
-    ts = int(time / time_base)
+    ts = round(time / time_base)
     self.frame.time_base = time_base
     self.frame.dts = ts
     self.frame.pts = ts
diff --git a/streamtasks/system/tasks/media/videoencoder.py b/streamtasks/system/tasks/media/videoencoder.py
index 19fdb1c..eb3a658 100644
--- a/streamtasks/system/tasks/media/videoencoder.py
+++ b/streamtasks/system/tasks/media/videoencoder.py
@@ -37,6 +37,7 @@ class VideoEncoderTask(SyncTask):
 
     self.time_base = hertz_to_fintervall(config.rate)
     self.t0: int | None = None
+    self.min_time = Fraction(0)
 
     codec_info = VideoCodecInfo(
       width=config.width,
@@ -74,7 +75,10 @@ class VideoEncoderTask(SyncTask):
           frame = VideoFrame.from_ndarray(bitmap, self.config.in_pixel_format)
         except ValueError: continue # malformed data
         if self.t0 is None: self.t0 = message.timestamp
-        frame.set_ts(Fraction(message.timestamp - self.t0, 1000), self.time_base)
+        # every frame needs a time of its own
+        self.min_time = max(self.min_time, Fraction(message.timestamp - self.t0, 1000))
+        frame.set_ts(self.min_time, self.time_base)
+        self.min_time = (frame.frame.pts + 1) * self.time_base
         packets = self.encoder.encode_sync(frame)
         for packet in packets:
           self.send_data(self.out_topic, RawData(MediaMessage(timestamp=int(self.t0 + packet.dts * self.time_base * 1000), packet=packet).model_dump()))
-- 
2.43.0


From a437166ab19e323548b246fa233902035918df19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 073/102] fix: stopping a receiver or a connection does not
 swallow the cancellation of the caller

---
 streamtasks/client/__init__.py           | 10 +++-------
 streamtasks/system/connection_manager.py |  6 ++----
 streamtasks/utils.py                     |  5 +++++
 3 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/streamtasks/client/__init__.py b/streamtasks/client/__init__.py
index e719fc0..cbf2644 100644
--- a/streamtasks/client/__init__.py
+++ b/streamtasks/client/__init__.py
@@ -4,7 +4,7 @@ from streamtasks.client.discovery import request_addresses
 from streamtasks.client.receiver import Receiver
 from streamtasks.client.topic import InTopic, InTopicSynchronizer, OutTopic, InTopicsContext, OutTopicsContext, SynchronizedInTopic
 from streamtasks.client.discovery import DiscoveryConstants, GenerateTopicsRequestBody, GenerateTopicsResponseBody, ResolveAddressRequestBody, ResolveAddressResonseBody
-from streamtasks.utils import IdGenerator, IdTracker, AwaitableIdTracker
+from streamtasks.utils import cancel_and_wait, IdGenerator, IdTracker, AwaitableIdTracker
 from streamtasks.net.serialization import RawData
 from streamtasks.net import Endpoint, EndpointOrAddress, Link, endpoint_or_address_to_endpoint
 from streamtasks.net.helpers import ids_to_priced_ids
@@ -38,9 +38,7 @@ class Client:
   async def stop_wait(self):
     self._started_event.clear()
     if self._receive_task is not None:
-      self._receive_task.cancel("stopped receiving!")
-      try: await self._receive_task
-      except asyncio.CancelledError: pass
+      await cancel_and_wait(self._receive_task, "stopped receiving!")
 
   def get_free_port(self): return self._port_generator.next()
 
@@ -118,9 +116,7 @@ class Client:
   async def disable_receiver(self, receiver: Receiver):
     self._receivers.remove(receiver)
     if len(self._receivers) == 0 and self._receive_task is not None:
-      self._receive_task.cancel()
-      try: await self._receive_task
-      except asyncio.CancelledError: pass
+      await cancel_and_wait(self._receive_task)
 
   def _start_receiving(self):
     self._receive_task = asyncio.create_task(self._task_receive())
diff --git a/streamtasks/system/connection_manager.py b/streamtasks/system/connection_manager.py
index e20d1c2..c79285f 100644
--- a/streamtasks/system/connection_manager.py
+++ b/streamtasks/system/connection_manager.py
@@ -18,7 +18,7 @@ from streamtasks.services.constants import NetworkAddressNames
 from streamtasks.system.task_web import PathRegistrationFrontend, TaskWebPathHandler
 import dbm
 import urllib.parse
-from streamtasks.utils import AsyncTrigger, wait_with_dependencies
+from streamtasks.utils import AsyncTrigger, cancel_and_wait, wait_with_dependencies
 from streamtasks.worker import Worker
 
 URLListAdapter = TypeAdapter(list[str])
@@ -67,9 +67,7 @@ class UrlData(Generic[T]):
     finally: change_task.cancel()
   async def stop(self):
     if self.task is None: return None
-    self.task.cancel()
-    try: await self.task
-    except asyncio.CancelledError: pass
+    try: await cancel_and_wait(self.task)
     except Exception as e: logging.warning(f"{self.sanitized_url} had failed: {e}")
     finally: self.task = None
 
diff --git a/streamtasks/utils.py b/streamtasks/utils.py
index 2287467..68b12c6 100644
--- a/streamtasks/utils.py
+++ b/streamtasks/utils.py
@@ -314,6 +314,11 @@ class IdGenerator:
 
 def strip_nones_from_dict(data: dict): return { k: v for k, v in data.items() if v is not None }
 
+async def cancel_and_wait(task: asyncio.Task, msg: Any = None):
+  task.cancel(msg)
+  await asyncio.wait([ task ]) # NOTE: awaiting the task itself would swallow a cancellation of the caller
+  if not task.cancelled(): task.result()
+
 @asynccontextmanager
 async def context_task(coro):
   try:
-- 
2.43.0


From d8423c5303cd1e797ab16c5b29461aaa2ab20cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 074/102] fix: a task that has ended or could not be started
 leaves no link on the network

---
 streamtasks/system/task.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index 19cc1e4..e2de624 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -163,6 +163,7 @@ class TaskHost(Worker):
     self.id = task_host_id_from_name(self.__class__.__name__)
     self._base_metadata = { "nodename": NODE_NAME() }
     self._registered_at_endpoints: list[EndpointOrAddress] = []
+    self._created_links: list[Link] = [] # for the task that is being created
 
   @property
   def metadata(self) -> MetadataDict: return {}
@@ -173,6 +174,7 @@ class TaskHost(Worker):
     if topic_space_id is not None:
       topic_map = await get_topic_space(self.client, topic_space_id)
       b = TopicRemappingLink(b, topic_map)
+    self._created_links.append(b)
     await self.switch.add_link(a)
     return b
 
@@ -235,7 +237,7 @@ class TaskHost(Worker):
   async def register_routes(self, router: ASGIRouter): pass
   @abstractmethod
   async def create_task(self, config: Any, topic_space_id: int | None) -> Task: pass
-  async def run_task(self, id: UUID4, task: Task, report_address: int):
+  async def run_task(self, id: UUID4, task: Task, report_address: int, links: list[Link] = []):
     error_text = None
     status = TaskStatus.running
     try:
@@ -248,6 +250,7 @@ class TaskHost(Worker):
       status = TaskStatus.failed
       error_text = str(e)
 
+    for link in links: link.close() # whatever it did not withdraw itself
     await send_signal(self.client, report_address, TaskConstants.SD_TM_TASK_REPORT, TaskReport(id=id, status=status, error=error_text).model_dump())
     self.tasks.pop(id, None)
 
@@ -257,14 +260,17 @@ class TaskHost(Worker):
     @fetch_server.route(TaskConstants.FD_TASK_START)
     async def _(req: FetchRequest):
       body = TaskStartRequest.model_validate(req.body)
+      self._created_links = links = []
       try:
         task = await self.create_task(body.config, body.topic_space_id)
         metadata = await asyncio.wait_for(task.setup(), 1) # NOTE: make this configurable
-        self.tasks[body.id] = asyncio.create_task(self.run_task(body.id, task, body.report_address))
+        self.tasks[body.id] = asyncio.create_task(self.run_task(body.id, task, body.report_address, links))
         await req.respond(TaskStartResponse(id=body.id, metadata=metadata, error=None))
       except asyncio.CancelledError: raise # the host shuts down
       except BaseException as e:
+        for link in links: link.close()
         await req.respond(TaskStartResponse(id=body.id, error=str(e), metadata={}))
+      finally: self._created_links = []
 
     @fetch_server.route(TaskConstants.FD_TASK_CANCEL)
     async def _(req: FetchRequest):
-- 
2.43.0


From 8e471fe34226b977cae99fb0605fedf957ce86fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:41 +0000
Subject: [PATCH 075/102] fix: a function task may take a timestamp

---
 streamtasks/system/fntask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/fntask.py b/streamtasks/system/fntask.py
index 86b52a4..d9b8efd 100644
--- a/streamtasks/system/fntask.py
+++ b/streamtasks/system/fntask.py
@@ -331,7 +331,7 @@ class FnTaskConfig:
     if "config" in params: config_type = params.pop("config").annotation
     if "state" in params: state_type = params.pop("state").annotation
     if "timestamp" in params:
-      if not typing.get_origin(params.pop("timestamp").annotation) is int: raise ValueError("timestamp must be of type int!")
+      if params.pop("timestamp").annotation is not int: raise ValueError("timestamp must be of type int!")
       has_timestamp = True
 
     inputs = [ FnTaskInputConfig.from_parameter(param) for param in params.values() ]
-- 
2.43.0


From ae1e10af927a92fa6a04542d034f1fbd0f969c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:41 +0000
Subject: [PATCH 076/102] fix: the state of a function task does not need a
 config

---
 streamtasks/system/fntask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/fntask.py b/streamtasks/system/fntask.py
index d9b8efd..d20737c 100644
--- a/streamtasks/system/fntask.py
+++ b/streamtasks/system/fntask.py
@@ -295,7 +295,7 @@ class FnTaskConfig:
         raise ValueError("The config class needs to have a constructor allowing the creation of an instance without any parameters.")
       self.config_type_adapter # make sure this can be created
 
-    if self.state_type is not None and not _validate_object_create_empty(self.config_type):
+    if self.state_type is not None and not _validate_object_create_empty(self.state_type):
       raise ValueError("The state class needs to have a constructor allowing the creation of an instance without any parameters.")
 
   async def execute(self, timestamp: int, params: dict[str, Any], state: Any, config: Any) -> tuple:
-- 
2.43.0


From a939773cf5c55376a0d6c6e2bfe90712798fe6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:28 +0000
Subject: [PATCH 077/102] fix: a function task makes no calls after one has
 failed

---
 streamtasks/system/fntask.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/streamtasks/system/fntask.py b/streamtasks/system/fntask.py
index d20737c..19997b7 100644
--- a/streamtasks/system/fntask.py
+++ b/streamtasks/system/fntask.py
@@ -107,6 +107,7 @@ class _FnTask(Task):
     self.inputs = [ _FnTaskInput(input_topics[input.name], input) for input in root_config.inputs ]
 
     self.execute_lock = asyncio.Lock()
+    self.execute_failed = False
 
     self.param_values: dict[str, Any] = {}
     self.state = root_config.new_state()
@@ -121,7 +122,10 @@ class _FnTask(Task):
         await exit_stack.enter_async_context(o.topic.RegisterContext())
 
       self.client.start()
-      await asyncio.gather(*(self._run_input(input) for input in self.inputs))
+      tasks = [ asyncio.create_task(self._run_input(input)) for input in self.inputs ]
+      try: await asyncio.gather(*tasks)
+      finally:
+        for task in tasks: task.cancel()
 
   async def execute(self, timestamp: int):
     for input in self.inputs:
@@ -144,8 +148,13 @@ class _FnTask(Task):
         data = await input.topic.recv_data()
         timestamp, value = _DATA_TO_VALUE[input.config.data_type](data.data)
         async with self.execute_lock:
+          if self.execute_failed: return # no calls after one has failed
           self.param_values[input.config.name] = value
-          await self.execute(timestamp)
+          try: await self.execute(timestamp)
+          except ValidationError: raise
+          except BaseException:
+            self.execute_failed = True
+            raise
       except ValidationError:
         logging.warning(f"Failed to parse message value on task {self.root_config.name}, input {input.config.name}!")
 
-- 
2.43.0


From 2cf1704aac75d51d7159adc3a3bf949b7aebcdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:24 +0000
Subject: [PATCH 078/102] fix: a container task whose secret cannot be resolved
 fails with that error

---
 streamtasks/system/tasks/media/inputcontainer.py  | 4 ++--
 streamtasks/system/tasks/media/outputcontainer.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/streamtasks/system/tasks/media/inputcontainer.py b/streamtasks/system/tasks/media/inputcontainer.py
index bc5c0a9..71ebbb0 100644
--- a/streamtasks/system/tasks/media/inputcontainer.py
+++ b/streamtasks/system/tasks/media/inputcontainer.py
@@ -81,6 +81,8 @@ class InputContainerTask(Task):
     except EOFError: pass
 
   async def run(self):
+    container: InputContainer | None = None
+    tasks: list[asyncio.Task] = []
     try:
       source = self.config.source
       if self.config.source_secret:
@@ -90,8 +92,6 @@ class InputContainerTask(Task):
         source += await secret_manager_client.resolve_secret(self.config.source_secret)
         await self.client.stop_wait()
 
-      container: InputContainer | None = None
-      tasks: list[asyncio.Task] = []
       container = await InputContainer.open(source, **self.config.container_options)
       tasks = [
         *(asyncio.create_task(self._run_stream(container.get_video_stream(idx, cfg.to_codec_info(), cfg.force_transcode), cfg.out_topic)) for idx, cfg in enumerate(self.config.video_tracks)),
diff --git a/streamtasks/system/tasks/media/outputcontainer.py b/streamtasks/system/tasks/media/outputcontainer.py
index b9362e2..d24a15d 100644
--- a/streamtasks/system/tasks/media/outputcontainer.py
+++ b/streamtasks/system/tasks/media/outputcontainer.py
@@ -135,6 +135,7 @@ class OutputContainerTask(Task):
         except ValidationError: pass
 
   async def run(self):
+    container: OutputContainer | None = None
     try:
       destination = self.config.destination
       if self.config.destination_secret:
@@ -144,7 +145,6 @@ class OutputContainerTask(Task):
         destination += await secret_manager_client.resolve_secret(self.config.destination_secret)
         await self.client.stop_wait()
 
-      container: OutputContainer | None = None
       container = await OutputContainer.open(destination, **self.config.container_options)
       streams: dict[int, AVOutputStream] = {}
       streams.update({ cfg.in_topic: container.add_video_stream(cfg.to_codec_info()) for cfg in self.config.video_tracks })
-- 
2.43.0


From 3acc16b64424ea8bba905381148ffe28e4e42cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:24 +0000
Subject: [PATCH 079/102] fix: a container task that is cancelled shows as
 stopped

---
 streamtasks/system/tasks/media/inputcontainer.py  | 1 -
 streamtasks/system/tasks/media/outputcontainer.py | 1 -
 2 files changed, 2 deletions(-)

diff --git a/streamtasks/system/tasks/media/inputcontainer.py b/streamtasks/system/tasks/media/inputcontainer.py
index 71ebbb0..663831a 100644
--- a/streamtasks/system/tasks/media/inputcontainer.py
+++ b/streamtasks/system/tasks/media/inputcontainer.py
@@ -100,7 +100,6 @@ class InputContainerTask(Task):
       self.client.start()
       done, _ = await asyncio.wait(tasks, return_when="FIRST_EXCEPTION")
       for t in done: await t
-    except asyncio.CancelledError: pass
     finally:
       if container is not None: await container.close()
       for t in tasks:
diff --git a/streamtasks/system/tasks/media/outputcontainer.py b/streamtasks/system/tasks/media/outputcontainer.py
index d24a15d..7a61717 100644
--- a/streamtasks/system/tasks/media/outputcontainer.py
+++ b/streamtasks/system/tasks/media/outputcontainer.py
@@ -156,7 +156,6 @@ class OutputContainerTask(Task):
       done, pending = await asyncio.wait(tasks, return_when="FIRST_EXCEPTION")
       for t in pending: t.cancel()
       for t in done: await t
-    except asyncio.CancelledError: pass
     finally:
       if container is not None: await container.close()
 
-- 
2.43.0


From b451889a80ba68b23b0ce381d4d7d2b61e2cdfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:13 +0000
Subject: [PATCH 080/102] fix: a recording goes on while one of its tracks is
 paused

---
 streamtasks/media/container.py                    | 10 +++++++++-
 streamtasks/system/tasks/media/outputcontainer.py |  1 +
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/streamtasks/media/container.py b/streamtasks/media/container.py
index df85709..996d7bd 100644
--- a/streamtasks/media/container.py
+++ b/streamtasks/media/container.py
@@ -19,18 +19,24 @@ class _StreamContext:
     self.lock = asyncio.Lock()
     self._sync_update_trigger = AsyncTrigger()
     self._sync_channels: dict[int, Fraction] = {}
+    self._paused_channels: set[int] = set()
 
   def create_sync_channel(self):
     channel_id = len(self._sync_channels)
     self._sync_channels[channel_id] = 0
     return channel_id
 
-  def is_min(self, channel: int): return self._sync_channels[channel] == min(self._sync_channels.values())
+  def is_min(self, channel: int): return all(self._sync_channels[channel] <= time for other, time in self._sync_channels.items() if other not in self._paused_channels)
 
   async def sync_wait_channel_min(self, channel: int):
     while not self.is_min(channel):
       await self._sync_update_trigger.wait()
 
+  def set_channel_paused(self, channel: int, paused: bool): # nobody waits for a paused channel
+    if paused: self._paused_channels.add(channel)
+    else: self._paused_channels.discard(channel)
+    self._sync_update_trigger.trigger()
+
   def set_sync_channel_time(self, channel: int, time: Fraction):
     self._sync_channels[channel] = max(self._sync_channels[channel], time)
     self._sync_update_trigger.trigger()
@@ -131,6 +137,8 @@ class AVOutputStream:
     self._dts_counter = max(self._dts_counter, int(duration / self._time_base))
     self._ctx.set_sync_channel_time(self._sync_channel, self.duration)
 
+  def set_paused(self, paused: bool): self._ctx.set_channel_paused(self._sync_channel, paused)
+
   @property
   def ready_for_packet(self): return self._ctx.is_min(self._sync_channel)
 
diff --git a/streamtasks/system/tasks/media/outputcontainer.py b/streamtasks/system/tasks/media/outputcontainer.py
index 7a61717..b6db02a 100644
--- a/streamtasks/system/tasks/media/outputcontainer.py
+++ b/streamtasks/system/tasks/media/outputcontainer.py
@@ -101,6 +101,7 @@ class OutputContainerSynchronizer(InTopicSynchronizer):
     return not drop
 
   async def set_paused(self, topic_id: int, paused: bool):
+    if topic_id in self._streams: self._streams[topic_id].set_paused(paused)
     if paused: self._set_topic_timestamp(topic_id, None)
     else: self._set_topic_timestamp(topic_id, self.min_timestamp)
 
-- 
2.43.0


From 94b5e46339bd899c27cb5ee37fd6dbeec0cad66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:48 +0000
Subject: [PATCH 081/102] fix: a recording's file is not closed while a packet
 is being written, and its readers end with it

---
 streamtasks/media/container.py                    | 6 +++++-
 streamtasks/system/tasks/media/outputcontainer.py | 6 ++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/streamtasks/media/container.py b/streamtasks/media/container.py
index 996d7bd..708c6b7 100644
--- a/streamtasks/media/container.py
+++ b/streamtasks/media/container.py
@@ -158,7 +158,11 @@ class AVOutputStream:
     loop = asyncio.get_running_loop()
     async with self._ctx.lock:
       assert av_packet.dts <= av_packet.pts, "dts must be lower than pts before muxing"
-      await loop.run_in_executor(None, self._stream.container.mux, av_packet)
+      muxing = loop.run_in_executor(None, self._stream.container.mux, av_packet)
+      try: await asyncio.shield(muxing)
+      except asyncio.CancelledError:
+        await asyncio.wait([ muxing ]) # the container must not be closed before
+        raise
       assert av_packet.dts <= av_packet.pts, "dts must be lower than pts after muxing"
       if self._stream.type == "audio":
         self._dts_counter += int(self._stream.codec_context.frame_size)
diff --git a/streamtasks/system/tasks/media/outputcontainer.py b/streamtasks/system/tasks/media/outputcontainer.py
index b6db02a..39af15e 100644
--- a/streamtasks/system/tasks/media/outputcontainer.py
+++ b/streamtasks/system/tasks/media/outputcontainer.py
@@ -137,6 +137,7 @@ class OutputContainerTask(Task):
 
   async def run(self):
     container: OutputContainer | None = None
+    tasks: list[asyncio.Task] = []
     try:
       destination = self.config.destination
       if self.config.destination_secret:
@@ -154,10 +155,11 @@ class OutputContainerTask(Task):
       tasks = [ asyncio.create_task(self._run_stream(stream, in_topic_id)) for in_topic_id, stream in streams.items() ]
       # TODO add barrier here
       self.client.start()
-      done, pending = await asyncio.wait(tasks, return_when="FIRST_EXCEPTION")
-      for t in pending: t.cancel()
+      done, _ = await asyncio.wait(tasks, return_when="FIRST_EXCEPTION")
       for t in done: await t
     finally:
+      for t in tasks: t.cancel()
+      if len(tasks) > 0: await asyncio.wait(tasks)
       if container is not None: await container.close()
 
 class OutputContainerTaskHost(TaskHost):
-- 
2.43.0


From ef9501aa62ab18851fb1d403479336d5a29f0b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:59 +0000
Subject: [PATCH 082/102] fix: packets read from a file keep their time (it was
 cut off to the frame before)

---
 streamtasks/media/packet.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/streamtasks/media/packet.py b/streamtasks/media/packet.py
index 7df032c..592d7a0 100644
--- a/streamtasks/media/packet.py
+++ b/streamtasks/media/packet.py
@@ -27,9 +27,9 @@ class MediaPacket:
   @staticmethod
   def from_av_packet(packet: av.Packet, time_base: Fraction):
     if packet.time_base is None or packet.pts is None: raise ValueError("Expected time_base and pts on av.Packet!")
-    time_base_factor = float(packet.time_base / time_base)
-    rel_dts = int((packet.pts - (packet.pts if packet.dts is None else packet.dts)) * time_base_factor)
-    pts = int(packet.pts * time_base_factor)
+    time_base_factor = packet.time_base / time_base
+    pts = round(packet.pts * time_base_factor)
+    rel_dts = 0 if packet.dts is None else pts - round(packet.dts * time_base_factor)
     return MediaPacket(bytes(packet), pts, rel_dts, packet.is_keyframe)
 
 class MediaMessage(TimestampMessage):
-- 
2.43.0


From 291fd2b57750fe13f675c02860c2529cd2cdb46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:59 +0000
Subject: [PATCH 083/102] fix: a container played in real time does not run
 ahead after it was held up

---
 streamtasks/system/tasks/media/inputcontainer.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/streamtasks/system/tasks/media/inputcontainer.py b/streamtasks/system/tasks/media/inputcontainer.py
index 663831a..312a8d5 100644
--- a/streamtasks/system/tasks/media/inputcontainer.py
+++ b/streamtasks/system/tasks/media/inputcontainer.py
@@ -62,7 +62,6 @@ class InputContainerTask(Task):
   async def _run_stream(self, stream: AVInputStream, out_topic_id: int):
     try:
       out_topic = self.client.out_topic(out_topic_id)
-      offset = 0
       async with out_topic, out_topic.RegisterContext():
         while True:
           packets = await stream.demux()
@@ -74,10 +73,8 @@ class InputContainerTask(Task):
             if DEBUG_MEDIA(): ddebug_value("in", stream._stream.type, offset_timestamp)
             timestamp = self._t0 + offset_timestamp
             if self.config.real_time:
-              current_timestamp = get_timestamp_ms()
-              await asyncio.sleep(max(0, (timestamp - current_timestamp - offset) / 1000))
+              await asyncio.sleep(max(0, (timestamp - get_timestamp_ms()) / 1000))
             await out_topic.send(RawData(MediaMessage(timestamp=timestamp, packet=packet).model_dump()))
-            offset += get_timestamp_ms() - timestamp
     except EOFError: pass
 
   async def run(self):
-- 
2.43.0


From 413e371da9747aceb673a88a3ec89a8a562b928c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:18 +0000
Subject: [PATCH 084/102] fix: a container that fails to play one track does
 not go on playing the others

---
 streamtasks/system/tasks/media/inputcontainer.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/streamtasks/system/tasks/media/inputcontainer.py b/streamtasks/system/tasks/media/inputcontainer.py
index 312a8d5..8dcdd75 100644
--- a/streamtasks/system/tasks/media/inputcontainer.py
+++ b/streamtasks/system/tasks/media/inputcontainer.py
@@ -98,12 +98,9 @@ class InputContainerTask(Task):
       done, _ = await asyncio.wait(tasks, return_when="FIRST_EXCEPTION")
       for t in done: await t
     finally:
+      for t in tasks: t.cancel()
+      if len(tasks) > 0: await asyncio.wait(tasks)
       if container is not None: await container.close()
-      for t in tasks:
-        try:
-          t.cancel()
-          await t
-        except asyncio.CancelledError: pass
 
 class InputContainerTaskHost(TaskHost):
   @property
-- 
2.43.0


From 98ab649c2ef8c8262f7c1f28152697bc4bbcece5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:41 +0000
Subject: [PATCH 085/102] fix: a file whose first packets have no decoding time
 can be played

---
 streamtasks/media/container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/media/container.py b/streamtasks/media/container.py
index 708c6b7..580d568 100644
--- a/streamtasks/media/container.py
+++ b/streamtasks/media/container.py
@@ -52,7 +52,7 @@ class _Demuxer(AsyncMPProducer[av.Packet]):
       try:
         av_packet = next(demux_iter)
         if av_packet.size == 0 and av_packet.dts is None and av_packet.pts is None: raise EOFError()
-        assert av_packet.dts <= av_packet.pts, "dts must be lower than pts while demuxing"
+        assert av_packet.dts is None or av_packet.dts <= av_packet.pts, "dts must be lower than pts while demuxing"
         self.send_message(av_packet)
       except StopIteration: raise EOFError()
       except TimeoutError: pass
-- 
2.43.0


From 32cf8db5fce218de03e9c9c2d18869e3ddad599b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:11 +0000
Subject: [PATCH 086/102] fix: a file with a track of unknown format (like one
 without packets) can be played

---
 streamtasks/media/container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/media/container.py b/streamtasks/media/container.py
index 580d568..f1bb9bd 100644
--- a/streamtasks/media/container.py
+++ b/streamtasks/media/container.py
@@ -77,7 +77,7 @@ class AVInputStream:
       if force_transcode or not target_codec.compatible_with(codec_info):
         self._transcoder = AVTranscoder(Decoder(codec_info, codec_context=stream.codec_context), target_codec.get_encoder())
         self.stream_time_base = self._transcoder.decoder.time_base
-    except TypeError: pass # NOTE: some contexts dont have all the codec info
+    except (TypeError, AttributeError): pass # NOTE: some contexts dont have all the codec info
 
   @property
   def codec_info(self) -> CodecInfo: return CodecInfo.from_codec_context(self._stream.codec_context)
-- 
2.43.0


From 2fd6ca153f159c53c79443cca7590a4a66a63d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:57 +0000
Subject: [PATCH 087/102] fix: repeated video frames are copied line by line
 (they were garbled)

---
 streamtasks/media/video.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamtasks/media/video.py b/streamtasks/media/video.py
index 40c7465..0e79b81 100644
--- a/streamtasks/media/video.py
+++ b/streamtasks/media/video.py
@@ -115,8 +115,8 @@ def copy_av_video_frame(frame: av.VideoFrame) -> av.VideoFrame:
   new_frame.colorspace = frame.colorspace
   new_frame.color_range = frame.color_range
   assert len(frame.planes) == len(new_frame.planes)
-  for a, b in zip(new_frame.planes, frame.planes):
-    ctypes.memmove(a.buffer_ptr, b.buffer_ptr, min(a.buffer_size, b.buffer_size))
+  for a, b in zip(new_frame.planes, frame.planes): # their lines may be padded differently
+    for line in range(a.height): ctypes.memmove(a.buffer_ptr + line * a.line_size, b.buffer_ptr + line * b.line_size, min(a.line_size, b.line_size))
   return new_frame
 
 class FrameReformatter:
-- 
2.43.0


From 365879740aa63f0fe4dca14cf9105b90077d8ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:36 +0000
Subject: [PATCH 088/102] fix: a control value that is not a number does not
 end a switch

---
 streamtasks/system/tasks/switch.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/streamtasks/system/tasks/switch.py b/streamtasks/system/tasks/switch.py
index 1b50735..f6c170a 100644
--- a/streamtasks/system/tasks/switch.py
+++ b/streamtasks/system/tasks/switch.py
@@ -73,8 +73,7 @@ class SwitchTask(Task):
 
   def _get_selected_index(self):
     if len(self.control_values) == 0: return -1
-    selected_value = max(value for value in self.control_values.values())
-    return next(idx for idx, value in self.control_values.items() if value == selected_value)
+    return max(self.control_values, key=self.control_values.get)
 
 class SwitchTaskHost(TaskHost):
   @property
-- 
2.43.0


From a1085a85657b9b9ddb211e4913c3c05352484bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:36 +0000
Subject: [PATCH 089/102] fix: a timestamp too large to be sent is not taken
 over (it cost the task its connection)

---
 streamtasks/message/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamtasks/message/utils.py b/streamtasks/message/utils.py
index b2e999c..972287b 100644
--- a/streamtasks/message/utils.py
+++ b/streamtasks/message/utils.py
@@ -7,8 +7,8 @@ def get_timestamp_from_message(data: RawData) -> int:
   if isinstance(content, dict) and "timestamp" in content: timestamp = content["timestamp"]
   elif hasattr(content, "timestamp") and isinstance(content.timestamp, int): timestamp = content.timestamp
   else: raise ValueError(f"could not get timestamp from message: {data}")
-  if isinstance(timestamp, int): return timestamp
-  if isinstance(timestamp, float) and math.isfinite(timestamp): return int(timestamp)
+  if isinstance(timestamp, float) and math.isfinite(timestamp): timestamp = int(timestamp)
+  if isinstance(timestamp, int) and abs(timestamp) < 2**63: return timestamp # NOTE: anything larger could not be sent on
   raise ValueError(f"could not get timestamp from message: {data}")
 
 def set_timestamp_on_message(data: RawData, timestamp: int):
-- 
2.43.0


From 26c6b98d1796e10b42cb72bfee8c6630c2adefa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:36 +0000
Subject: [PATCH 090/102] fix: malformed audio does not end the frequency
 display

---
 streamtasks/system/tasks/ui/audiofrequencydisplay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/ui/audiofrequencydisplay.py b/streamtasks/system/tasks/ui/audiofrequencydisplay.py
index a941a01..d2efa57 100644
--- a/streamtasks/system/tasks/ui/audiofrequencydisplay.py
+++ b/streamtasks/system/tasks/ui/audiofrequencydisplay.py
@@ -48,7 +48,7 @@ class AudioFrequencyDisplayTask(UIBaseTask[AudioFrequencyDisplayConfig, AudioFre
           freq_bins = np.pad(freqs, (expected_len - freqs.size)).reshape((-1, self.config.bin_size)).sum(-1)
           freq_bins = freq_bins / freq_bins.max()
           self.value = AudioFrequencyDisplayValue(freq_bins=list(freq_bins))
-      except ValidationError: pass
+      except (ValidationError, ValueError): pass
 
 class AudioFrequencyDisplayTaskHost(TaskHost):
   @property
-- 
2.43.0


From ca82c913079589f2eee56cbe42eda787c8f012f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:36 +0000
Subject: [PATCH 091/102] fix: an audio message without samples does not end
 the resampler or encoder

---
 streamtasks/media/audio.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streamtasks/media/audio.py b/streamtasks/media/audio.py
index ca767cc..7d99950 100644
--- a/streamtasks/media/audio.py
+++ b/streamtasks/media/audio.py
@@ -59,6 +59,7 @@ class AudioFrame(Frame[av.AudioFrame]):
   @staticmethod
   def from_buffer(buf: ByteString, sample_format: str, channels: int, sample_rate: int):
     arr, is_planar = audio_buffer_to_ndarray(buf, sample_format)
+    if arr.size < channels: raise ValueError("The buffer has no samples!")
     if is_planar: arr = arr.reshape((channels, -1))
     else: arr = arr.reshape((1, -1))
     return AudioFrame.from_ndarray(arr, sample_format, channels, sample_rate)
-- 
2.43.0


From a191d7cf7f5b6edde3b225197136d3834a982dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:36 +0000
Subject: [PATCH 092/102] fix: the text renderer offers no font size of 0, it
 cannot start with it

---
 streamtasks/system/tasks/media/textrenderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/media/textrenderer.py b/streamtasks/system/tasks/media/textrenderer.py
index db2ffa0..4edcdf0 100644
--- a/streamtasks/system/tasks/media/textrenderer.py
+++ b/streamtasks/system/tasks/media/textrenderer.py
@@ -106,7 +106,7 @@ class TextRendererTaskHost(TaskHost):
       MediaEditorFields.pixel_size("x"),
       MediaEditorFields.pixel_size("y"),
       EditorFields.select("font", [ (font_file, os.path.splitext(font_file)[0]) for font_file in list_ttf_files() ]),
-      MediaEditorFields.pixel_size("font_size"),
+      EditorFields.integer("font_size", min_value=1, unit="px"),
       EditorFields.color("font_color"),
     ]
   )
-- 
2.43.0


From afbe1bab11a99947393a64f62a96eb0a9bc1a460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:36 +0000
Subject: [PATCH 093/102] fix: a text too long to be rendered does not end the
 text renderer

---
 streamtasks/system/tasks/media/textrenderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/media/textrenderer.py b/streamtasks/system/tasks/media/textrenderer.py
index 4edcdf0..d333604 100644
--- a/streamtasks/system/tasks/media/textrenderer.py
+++ b/streamtasks/system/tasks/media/textrenderer.py
@@ -89,7 +89,7 @@ class TextRendererTask(SyncTask):
         draw = ImageDraw.Draw(image)
         draw.text((self.config.x, self.config.y), message.value, font=font, fill=self.config.font_color)
         self.send_data(self.out_topic, RawData(TimestampChuckMessage(timestamp=message.timestamp, data=image.tobytes()).model_dump()))
-      except queue.Empty: pass
+      except (queue.Empty, Image.DecompressionBombError): pass # NOTE: too much text
 
 class TextRendererTaskHost(TaskHost):
   @property
-- 
2.43.0


From cbb200687f0bac1cf62d5f6a2aaba3d9ec709667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:35 +0000
Subject: [PATCH 094/102] fix: the topic viewer shows lists as lists and goes
 on after infinite numbers and times

---
 streamtasks/utils.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/streamtasks/utils.py b/streamtasks/utils.py
index 68b12c6..2252923 100644
--- a/streamtasks/utils.py
+++ b/streamtasks/utils.py
@@ -333,13 +333,11 @@ def make_json_serializable(v: Any):
   if isinstance(v, (str, int, bool)) or v is None: return v
   if isinstance(v, float):
     if math.isnan(v): return "NaN"
-    else: return v
+    if math.isinf(v): return "Infinity" if v > 0 else "-Infinity"
+    return v
   if isinstance(v, (bytes, bytearray, memoryview)): return v.hex()
-  try: v = dict(v)
-  except (TypeError, ValueError): v = list(v)
-  except: pass
   if isinstance(v, dict): return { make_json_serializable(k): make_json_serializable(v) for k, v in v.items() }
-  if isinstance(v, list): return [ make_json_serializable(v) for v in v ]
+  if isinstance(v, (list, tuple)): return [ make_json_serializable(v) for v in v ]
   return repr(v)
 
 def hertz_to_fintervall(f: int | float): return Fraction(1, int(f)) if int(f) == f else 1 / Fraction(f).limit_denominator(100000)
-- 
2.43.0


From 5f73efb086a1cfa42adc79a9ea8b2e6fcbc105dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:35 +0000
Subject: [PATCH 095/102] fix: the value of a control or display is valid JSON
 for every number

---
 streamtasks/system/tasks/ui/controlbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/ui/controlbase.py b/streamtasks/system/tasks/ui/controlbase.py
index a851a96..2771882 100644
--- a/streamtasks/system/tasks/ui/controlbase.py
+++ b/streamtasks/system/tasks/ui/controlbase.py
@@ -71,7 +71,7 @@ class UIBaseTask(Task, Generic[C, V]):
 
     @router.get("/value")
     @http_context_handler
-    async def _(ctx: HTTPContext): await ctx.respond_json(self._value.model_dump())
+    async def _(ctx: HTTPContext): await ctx.respond_json_string(self._value.model_dump_json())
 
     @router.get("/config")
     @http_context_handler
-- 
2.43.0


From 232b50acdc81f9df6e2fcfc89445b4004c7a2c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:41 +0000
Subject: [PATCH 096/102] fix: the frequency display takes any bin size (only
 those that divide the spectrum worked)

---
 streamtasks/system/tasks/ui/audiofrequencydisplay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/ui/audiofrequencydisplay.py b/streamtasks/system/tasks/ui/audiofrequencydisplay.py
index d2efa57..1b0fe3c 100644
--- a/streamtasks/system/tasks/ui/audiofrequencydisplay.py
+++ b/streamtasks/system/tasks/ui/audiofrequencydisplay.py
@@ -45,7 +45,7 @@ class AudioFrequencyDisplayTask(UIBaseTask[AudioFrequencyDisplayConfig, AudioFre
         for chunk, _ in chunker.next(new_samples, 0):
           freqs = np.abs(np.fft.fft(chunk)[:chunk.size // 2])
           expected_len = math.ceil(freqs.size / self.config.bin_size) * self.config.bin_size
-          freq_bins = np.pad(freqs, (expected_len - freqs.size)).reshape((-1, self.config.bin_size)).sum(-1)
+          freq_bins = np.pad(freqs, (0, expected_len - freqs.size)).reshape((-1, self.config.bin_size)).sum(-1)
           freq_bins = freq_bins / freq_bins.max()
           self.value = AudioFrequencyDisplayValue(freq_bins=list(freq_bins))
       except (ValidationError, ValueError): pass
-- 
2.43.0


From 5ba667236e2fb5c6a94b92a9d4c879eaee35e3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:41 +0000
Subject: [PATCH 097/102] fix: the frequency display shows silence as such

---
 streamtasks/system/tasks/ui/audiofrequencydisplay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/ui/audiofrequencydisplay.py b/streamtasks/system/tasks/ui/audiofrequencydisplay.py
index 1b0fe3c..b463e9d 100644
--- a/streamtasks/system/tasks/ui/audiofrequencydisplay.py
+++ b/streamtasks/system/tasks/ui/audiofrequencydisplay.py
@@ -46,7 +46,7 @@ class AudioFrequencyDisplayTask(UIBaseTask[AudioFrequencyDisplayConfig, AudioFre
           freqs = np.abs(np.fft.fft(chunk)[:chunk.size // 2])
           expected_len = math.ceil(freqs.size / self.config.bin_size) * self.config.bin_size
           freq_bins = np.pad(freqs, (0, expected_len - freqs.size)).reshape((-1, self.config.bin_size)).sum(-1)
-          freq_bins = freq_bins / freq_bins.max()
+          freq_bins = freq_bins / (freq_bins.max() or 1)
           self.value = AudioFrequencyDisplayValue(freq_bins=list(freq_bins))
       except (ValidationError, ValueError): pass
 
-- 
2.43.0


From dc6f78fdee52630870f4380b8499e70d2525e96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:38 +0000
Subject: [PATCH 098/102] fix: sizes and rates of media tasks cannot be set to
 0 (they could not start with it)

---
 streamtasks/system/tasks/media/screencapture.py | 4 ++--
 streamtasks/system/tasks/media/textrenderer.py  | 4 ++--
 streamtasks/system/tasks/media/utils.py         | 5 ++++-
 streamtasks/system/tasks/media/videolayout.py   | 4 ++--
 4 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/streamtasks/system/tasks/media/screencapture.py b/streamtasks/system/tasks/media/screencapture.py
index ed58ffd..37b7e18 100644
--- a/streamtasks/system/tasks/media/screencapture.py
+++ b/streamtasks/system/tasks/media/screencapture.py
@@ -60,8 +60,8 @@ class ScreenCaptureTaskHost(TaskHost):
     default_config=ScreenCaptureConfigBase().model_dump(),
     config_to_output_map=[ { v: v for v in [ "rate", "width", "height" ] } ],
     editor_fields=[
-      MediaEditorFields.pixel_size("top_offset"),
-      MediaEditorFields.pixel_size("left_offset"),
+      MediaEditorFields.pixel_offset("top_offset"),
+      MediaEditorFields.pixel_offset("left_offset"),
       MediaEditorFields.pixel_size("width"),
       MediaEditorFields.pixel_size("height"),
       MediaEditorFields.frame_rate(),
diff --git a/streamtasks/system/tasks/media/textrenderer.py b/streamtasks/system/tasks/media/textrenderer.py
index d333604..277cfd7 100644
--- a/streamtasks/system/tasks/media/textrenderer.py
+++ b/streamtasks/system/tasks/media/textrenderer.py
@@ -103,8 +103,8 @@ class TextRendererTaskHost(TaskHost):
       MediaEditorFields.pixel_format(allowed_values = list_pil_pixel_formats()),
       MediaEditorFields.pixel_size("width"),
       MediaEditorFields.pixel_size("height"),
-      MediaEditorFields.pixel_size("x"),
-      MediaEditorFields.pixel_size("y"),
+      MediaEditorFields.pixel_offset("x"),
+      MediaEditorFields.pixel_offset("y"),
       EditorFields.select("font", [ (font_file, os.path.splitext(font_file)[0]) for font_file in list_ttf_files() ]),
       EditorFields.integer("font_size", min_value=1, unit="px"),
       EditorFields.color("font_color"),
diff --git a/streamtasks/system/tasks/media/utils.py b/streamtasks/system/tasks/media/utils.py
index f720c47..87fabc0 100644
--- a/streamtasks/system/tasks/media/utils.py
+++ b/streamtasks/system/tasks/media/utils.py
@@ -27,10 +27,13 @@ class MediaEditorFields:
     return MediaEditorFields.codec_name(mode=mode, key=key, codec_type="audio", label=label)
 
   def pixel_size(key: str, label: str | None = None):
+    return EditorFields.integer(key=key, label=label, min_value=1, unit="px")
+
+  def pixel_offset(key: str, label: str | None = None):
     return EditorFields.integer(key=key, label=label, min_value=0, unit="px")
 
   def rate(unit: str, key: str = "rate", label: str | None = None, is_int: bool = False):
-    return EditorFields.number(key=key, label=label, unit=unit, min_value=0, is_int=is_int)
+    return EditorFields.number(key=key, label=label, unit=unit, min_value=1 if is_int else 0.001, is_int=is_int)
 
   def channel_count(key: str = "channels", label: str | None = None):
     return EditorFields.integer(key=key, label=label, min_value=1, max_value=16)
diff --git a/streamtasks/system/tasks/media/videolayout.py b/streamtasks/system/tasks/media/videolayout.py
index cea3c88..cd27535 100644
--- a/streamtasks/system/tasks/media/videolayout.py
+++ b/streamtasks/system/tasks/media/videolayout.py
@@ -105,8 +105,8 @@ class VideoLayoutTaskHost(TaskHost):
     editor_fields=[
       MediaEditorFields.pixel_format(allowed_values = TRANSPARENT_PXL_FORMATS),
       MediaEditorFields.frame_rate(),
-      MediaEditorFields.pixel_size(key="place_top_offset"),
-      MediaEditorFields.pixel_size(key="place_left_offset"),
+      MediaEditorFields.pixel_offset(key="place_top_offset"),
+      MediaEditorFields.pixel_offset(key="place_left_offset"),
       MediaEditorFields.pixel_size(key="place_width"),
       MediaEditorFields.pixel_size(key="place_height"),
       MediaEditorFields.pixel_size(key="in_width", label="input width"),
-- 
2.43.0


From 6ac55f7a3043a90df9875092d5fabf4ed63e0a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:48 +0000
Subject: [PATCH 099/102] fix: the volume meter hangs with a time window
 shorter than a sample

---
 streamtasks/system/tasks/media/audiovolumemeter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/media/audiovolumemeter.py b/streamtasks/system/tasks/media/audiovolumemeter.py
index cebdf6c..4b14fac 100644
--- a/streamtasks/system/tasks/media/audiovolumemeter.py
+++ b/streamtasks/system/tasks/media/audiovolumemeter.py
@@ -59,7 +59,7 @@ class AudioVolumeMeterTask(SyncTask):
       except (ValidationError, ValueError): pass
 
   def run_sync(self):
-    chunker = AudioChunker(self.config.rate * self.config.time_window // 1000, self.config.rate)
+    chunker = AudioChunker(max(1, self.config.rate * self.config.time_window // 1000), self.config.rate)
     while not self.stop_event.is_set():
       try:
         message = self.message_queue.get(timeout=0.5)
-- 
2.43.0


From c1f61e7f7ea0c92731ace227ff1c6ec56c2f8755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:59 +0000
Subject: [PATCH 100/102] fix: a jump of the time does not end the audio mixer
 or exhaust the memory

---
 streamtasks/media/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/streamtasks/media/util.py b/streamtasks/media/util.py
index 75732a7..a08b974 100644
--- a/streamtasks/media/util.py
+++ b/streamtasks/media/util.py
@@ -186,6 +186,8 @@ class AudioSmoother:
     return buf
 
 class AudioSequencer:
+  MAX_GAP = 60 # seconds, longer gaps are not filled with silence
+
   def __init__(self, sample_rate: int, max_stretch_ratio: float, keep_buffer_size: int) -> None:
     self._sample_rate = sample_rate
     self._desync_time = Fraction(0)
@@ -229,6 +231,8 @@ class AudioSequencer:
     assert self._sample_buffer is None or self._sample_buffer.dtype == samples.dtype
     assert self._sample_buffer is None or self._sample_buffer.shape[1] == samples.shape[1]
 
+    if self._buffer_start_time is not None and self._sample_buffer is not None and time - self.end_time > self.MAX_GAP: self.reset(True)
+
     if self._buffer_start_time is None or self._sample_buffer is None:
       self._sample_buffer = samples
       self._buffer_start_time = time
-- 
2.43.0


From 1856099a57d6ae3f974c97b797f7cc3ba2e8c9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:17 +0000
Subject: [PATCH 101/102] fix: the logical operators of the calculator work
 (and, or, not gave no result, xor the wrong one)

---
 streamtasks/system/tasks/calculator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/streamtasks/system/tasks/calculator.py b/streamtasks/system/tasks/calculator.py
index 9172a9a..8cb4ebc 100644
--- a/streamtasks/system/tasks/calculator.py
+++ b/streamtasks/system/tasks/calculator.py
@@ -32,8 +32,8 @@ start: expr
     | expr "!=" expr -> ne
 
 ?binary_op: sum
-    | binary_op "&" expr -> and
-    | binary_op "|" expr -> or
+    | binary_op "&" expr -> and_
+    | binary_op "|" expr -> or_
     | binary_op "^" expr -> xor
 
 ?sum: product
@@ -52,7 +52,7 @@ start: expr
     | NAME -> variable
     | "-" atom -> neg
     | "+" atom -> pos
-    | "!" atom -> not
+    | "!" atom -> not_
     | "(" expr ")" -> group
     | NAME "(" [expr ("," expr)*]  ")" -> func
 
@@ -125,7 +125,7 @@ class CalculatorEvalTransformer(Transformer):
   def pow(self, args): return args[0] ** args[1]
   def and_(self, args): return 1.0 if args[0] > 0.5 and args[1] > 0.5 else 0.0
   def or_(self, args): return 1.0 if args[0] > 0.5 or args[1] > 0.5 else 0.0
-  def xor(self, args): return 1.0 if args[0] > 0.5 != args[1] > 0.5 else 0.0
+  def xor(self, args): return 1.0 if (args[0] > 0.5) != (args[1] > 0.5) else 0.0
   def gt(self, args): return 1.0 if args[0] > args[1] else 0.0
   def lt(self, args): return 1.0 if args[0] < args[1] else 0.0
   def ge(self, args): return 1.0 if args[0] >= args[1] else 0.0
-- 
2.43.0


From 77a7299a0e81582c21ec978212247d87f38a1598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:30 +0000
Subject: [PATCH 102/102] fix: operators of the calculator bind as they do
 elsewhere (a > b ? c : d, a * b ** c)

---
 streamtasks/system/tasks/calculator.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/streamtasks/system/tasks/calculator.py b/streamtasks/system/tasks/calculator.py
index 8cb4ebc..8b73ed9 100644
--- a/streamtasks/system/tasks/calculator.py
+++ b/streamtasks/system/tasks/calculator.py
@@ -21,29 +21,29 @@ start: expr
 ?expr: inline_if
 
 ?inline_if: comparsion
-    | expr "?" expr ":" expr -> inline_if
+    | comparsion "?" expr ":" expr -> inline_if
 
 ?comparsion: binary_op
-    | expr ">" expr -> gt
-    | expr "<" expr -> lt
-    | expr ">=" expr -> ge
-    | expr "<=" expr -> le
-    | expr "==" expr -> eq
-    | expr "!=" expr -> ne
+    | comparsion ">" binary_op -> gt
+    | comparsion "<" binary_op -> lt
+    | comparsion ">=" binary_op -> ge
+    | comparsion "<=" binary_op -> le
+    | comparsion "==" binary_op -> eq
+    | comparsion "!=" binary_op -> ne
 
 ?binary_op: sum
-    | binary_op "&" expr -> and_
-    | binary_op "|" expr -> or_
-    | binary_op "^" expr -> xor
+    | binary_op "&" sum -> and_
+    | binary_op "|" sum -> or_
+    | binary_op "^" sum -> xor
 
 ?sum: product
     | sum "+" product -> add
     | sum "-" product -> sub
 
 ?product: exp
-    | product "*" atom -> mul
-    | product "/" atom -> div
-    | product "%" atom -> mod
+    | product "*" exp -> mul
+    | product "/" exp -> div
+    | product "%" exp -> mod
 
 ?exp: atom
     | exp "**" atom -> pow
-- 
2.43.0

