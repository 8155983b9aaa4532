From 87b6528ecc7980fbfcd001330f859a3b61ed3eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:27 +0000
Subject: [PATCH 01/47] fix: erased observables return a subscription that
 reports closed and runs its teardowns when the pipeline ends

---
 .../rx_core_common/src/observables/erased_observable.rs  | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/crates/rx_core_common/src/observables/erased_observable.rs b/crates/rx_core_common/src/observables/erased_observable.rs
index 71cc8b8..cd8d774 100644
--- a/crates/rx_core_common/src/observables/erased_observable.rs
+++ b/crates/rx_core_common/src/observables/erased_observable.rs
@@ -4,7 +4,7 @@ use std::{
 };
 
 use crate::{
-	ErasedSubscriber, Observable, PhantomInvariant, Signal, Subscriber, SubscriptionData,
+	ErasedSubscriber, ErasedSubscription, Observable, PhantomInvariant, Signal, Subscriber,
 	UpgradeableObserver,
 };
 use rx_core_macro_observable_derive::RxObservable;
@@ -19,7 +19,7 @@ where
 	OutError: Signal,
 {
 	subscribe:
-		Arc<Mutex<dyn FnMut(ErasedSubscriber<Out, OutError>) -> SubscriptionData + Send + Sync>>,
+		Arc<Mutex<dyn FnMut(ErasedSubscriber<Out, OutError>) -> ErasedSubscription + Send + Sync>>,
 	_phantom_data: PhantomInvariant<(Out, OutError)>,
 }
 
@@ -34,8 +34,7 @@ where
 	{
 		ErasedObservable {
 			subscribe: Arc::new(Mutex::new(move |destination| {
-				let subscription = observable.subscribe(destination);
-				SubscriptionData::new_with_teardown(subscription.into())
+				ErasedSubscription::new(observable.subscribe(destination))
 			})),
 			_phantom_data: PhantomData,
 		}
@@ -61,7 +60,7 @@ where
 	OutError: Signal,
 {
 	type Subscription<Destination>
-		= SubscriptionData
+		= ErasedSubscription
 	where
 		Destination: 'static + Subscriber<In = Self::Out, InError = Self::OutError>;
 
-- 
2.43.0


From 9c8fd8dc2f0fecf798fa15338350754c9d509ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:27 +0000
Subject: [PATCH 02/47] fix: take and element_at forward unsubscribe to a
 destination that stayed open after their terminal notification

---
 .../rx_core_operator_element_at/src/element_at_subscriber.rs  | 4 ++--
 crates/rx_core_operator_take/src/take_subscriber.rs           | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/rx_core_operator_element_at/src/element_at_subscriber.rs b/crates/rx_core_operator_element_at/src/element_at_subscriber.rs
index 5c4a550..19e7858 100644
--- a/crates/rx_core_operator_element_at/src/element_at_subscriber.rs
+++ b/crates/rx_core_operator_element_at/src/element_at_subscriber.rs
@@ -122,10 +122,10 @@ where
 
 	#[inline]
 	fn unsubscribe(&mut self) {
-		if !self.is_closed() {
+		self.closed.close();
+		if !self.destination.is_closed() {
 			self.destination.unsubscribe();
 		}
-		self.closed.close();
 	}
 }
 
diff --git a/crates/rx_core_operator_take/src/take_subscriber.rs b/crates/rx_core_operator_take/src/take_subscriber.rs
index bd8a50d..5e68e74 100644
--- a/crates/rx_core_operator_take/src/take_subscriber.rs
+++ b/crates/rx_core_operator_take/src/take_subscriber.rs
@@ -75,10 +75,10 @@ where
 
 	#[inline]
 	fn unsubscribe(&mut self) {
-		if !self.is_closed() {
+		self.closed.close();
+		if !self.destination.is_closed() {
 			self.destination.unsubscribe();
 		}
-		self.closed.close();
 	}
 }
 
-- 
2.43.0


From 57279d6ace316f0fe369969f560896f52f6d6ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:50 +0000
Subject: [PATCH 03/47] fix: teardowns added to a never subscription follow its
 destination

---
 crates/rx_core_common/src/subscriptions/subscription.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/crates/rx_core_common/src/subscriptions/subscription.rs b/crates/rx_core_common/src/subscriptions/subscription.rs
index 4375377..f1e74f5 100644
--- a/crates/rx_core_common/src/subscriptions/subscription.rs
+++ b/crates/rx_core_common/src/subscriptions/subscription.rs
@@ -1,6 +1,6 @@
 use rx_core_macro_subscription_derive::RxSubscription;
 
-use crate::{Subscriber, SubscriptionData};
+use crate::Subscriber;
 
 #[derive(RxSubscription)]
 #[_rx_core_common_crate(crate)]
@@ -10,8 +10,6 @@ pub struct Subscription<Destination>
 where
 	Destination: Subscriber,
 {
-	#[teardown]
-	teardown: SubscriptionData,
 	#[destination]
 	destination: Destination,
 }
@@ -21,9 +19,6 @@ where
 	Destination: Subscriber,
 {
 	pub fn new(destination: Destination) -> Self {
-		Self {
-			destination,
-			teardown: SubscriptionData::default(),
-		}
+		Self { destination }
 	}
 }
-- 
2.43.0


From 26995f8654c36821aa5f51c66caf5866a6346c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:33 +0000
Subject: [PATCH 04/47] fix: just, empty and throw do not notify a destination
 that is already closed

---
 .../rx_core_observable_empty/src/empty_observable.rs |  8 ++++++--
 .../rx_core_observable_just/src/just_observable.rs   | 12 +++++++++---
 .../rx_core_observable_throw/src/throw_observable.rs |  8 ++++++--
 3 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/crates/rx_core_observable_empty/src/empty_observable.rs b/crates/rx_core_observable_empty/src/empty_observable.rs
index 30ea63f..f5d92bb 100644
--- a/crates/rx_core_observable_empty/src/empty_observable.rs
+++ b/crates/rx_core_observable_empty/src/empty_observable.rs
@@ -1,4 +1,6 @@
-use rx_core_common::{Never, Observable, RxObserver, Subscriber, UpgradeableObserver};
+use rx_core_common::{
+	Never, Observable, RxObserver, Subscriber, SubscriptionLike, UpgradeableObserver,
+};
 use rx_core_macro_observable_derive::RxObservable;
 use rx_core_subscription_inert::InertSubscription;
 
@@ -25,7 +27,9 @@ impl Observable for EmptyObservable {
 			'static + UpgradeableObserver<In = Self::Out, InError = Self::OutError> + Send + Sync,
 	{
 		let mut destination = observer.upgrade();
-		destination.complete();
+		if !destination.is_closed() {
+			destination.complete();
+		}
 		InertSubscription::new(destination)
 	}
 }
diff --git a/crates/rx_core_observable_just/src/just_observable.rs b/crates/rx_core_observable_just/src/just_observable.rs
index 08a00bc..f51c429 100644
--- a/crates/rx_core_observable_just/src/just_observable.rs
+++ b/crates/rx_core_observable_just/src/just_observable.rs
@@ -1,4 +1,6 @@
-use rx_core_common::{Never, Observable, RxObserver, Signal, Subscriber, UpgradeableObserver};
+use rx_core_common::{
+	Never, Observable, RxObserver, Signal, Subscriber, SubscriptionLike, UpgradeableObserver,
+};
 use rx_core_macro_observable_derive::RxObservable;
 use rx_core_subscription_inert::InertSubscription;
 
@@ -42,8 +44,12 @@ where
 			'static + UpgradeableObserver<In = Self::Out, InError = Self::OutError> + Send + Sync,
 	{
 		let mut destination = observer.upgrade();
-		destination.next(self.value.clone());
-		destination.complete();
+		if !destination.is_closed() {
+			destination.next(self.value.clone());
+		}
+		if !destination.is_closed() {
+			destination.complete();
+		}
 		InertSubscription::new(destination)
 	}
 }
diff --git a/crates/rx_core_observable_throw/src/throw_observable.rs b/crates/rx_core_observable_throw/src/throw_observable.rs
index f250136..5a90c4c 100644
--- a/crates/rx_core_observable_throw/src/throw_observable.rs
+++ b/crates/rx_core_observable_throw/src/throw_observable.rs
@@ -1,4 +1,6 @@
-use rx_core_common::{Never, Observable, RxObserver, Signal, Subscriber, UpgradeableObserver};
+use rx_core_common::{
+	Never, Observable, RxObserver, Signal, Subscriber, SubscriptionLike, UpgradeableObserver,
+};
 use rx_core_macro_observable_derive::RxObservable;
 use rx_core_subscription_inert::InertSubscription;
 
@@ -38,7 +40,9 @@ where
 		Destination: 'static + UpgradeableObserver<In = Self::Out, InError = Self::OutError>,
 	{
 		let mut subscriber = destination.upgrade();
-		subscriber.error(self.error.clone());
+		if !subscriber.is_closed() {
+			subscriber.error(self.error.clone());
+		}
 		InertSubscription::new(subscriber)
 	}
 }
-- 
2.43.0


From 389158754ccae10fa63c9753acce310285b1559a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:20 +0000
Subject: [PATCH 05/47] fix: concat and merge neither subscribe to queued inner
 observables while being unsubscribed nor lose free places to finished ones

---
 .../src/concurrent_subscriber.rs              | 40 +++++++++++--------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs b/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
index 4c13b47..382985c 100644
--- a/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
+++ b/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
@@ -38,7 +38,9 @@ where
 {
 	pub fn new(destination: Destination, concurrency_limit: NonZero<usize>) -> Self {
 		let mut shared_destination = SharedSubscriber::new(destination);
-		let state = Arc::new(Mutex::new(HigherOrderSubscriberState::default()));
+		let state = Arc::new(Mutex::new(HigherOrderSubscriberState::<
+			ConcurrentSubscriberQueue<InnerObservable>,
+		>::default()));
 		let inner_subscriptions = Arc::new(Mutex::new(Slab::<SubscriptionData>::new()));
 		let mut outer_teardown = SharedSubscription::default();
 
@@ -46,6 +48,13 @@ where
 		let state_on_unsubscribe = state.clone();
 
 		outer_teardown.add_fn(move || {
+			{
+				// Nothing that is still queued may be subscribed to anymore
+				let mut state = state_on_unsubscribe.lock_ignore_poison();
+				state.state.queue.clear();
+				state.upstream_subscriber_state.unsubscribe_if_not_already();
+			}
+
 			let inner_subscriptions = inner_subscriptions_on_unsubscribe
 				.lock_ignore_poison()
 				.drain()
@@ -54,9 +63,6 @@ where
 			for mut inner_subscription in inner_subscriptions {
 				inner_subscription.unsubscribe();
 			}
-
-			let mut state = state_on_unsubscribe.lock_ignore_poison();
-			state.upstream_subscriber_state.unsubscribe_if_not_already();
 		});
 
 		shared_destination.add(outer_teardown.clone());
@@ -82,6 +88,10 @@ pub(crate) fn subscribe_to_next_in_queue<InnerObservable, Destination>(
 	InnerObservable: Observable<Out = Destination::In, OutError = Destination::InError> + Signal,
 	Destination: 'static + Subscriber,
 {
+	if shared_destination.is_closed() {
+		return;
+	}
+
 	let mut state_lock = state.lock_ignore_poison();
 
 	if let Some(next) = state_lock.state.queue.pop_front() {
@@ -125,7 +135,6 @@ pub(crate) fn create_inner_subscription<InnerObservable, Destination>(
 
 	let inner_subscriptions_clone = inner_subscriptions.clone();
 
-	let concurrency_limit_minus_one: usize = usize::from(concurrency_limit) - 1;
 	let outer_teardown_on_complete_clone = outer_teardown.clone();
 	let mut outer_teardown_on_unsubscribe = outer_teardown.clone();
 	let mut shared_destination_on_unsubscribe = shared_destination.clone();
@@ -144,20 +153,17 @@ pub(crate) fn create_inner_subscription<InnerObservable, Destination>(
 			);
 		},
 		move |key| {
-			let no_more_subscribers_besides_this = {
-				let mut inner_subscriptions = inner_subscriptions.lock_ignore_poison();
-				inner_subscriptions.retain(|_k, s| !s.is_closed());
-				inner_subscriptions
-					.iter()
-					.filter(|(k, _)| *k != key)
-					.count() == concurrency_limit_minus_one
+			// This inner subscription is over, its entry is no longer needed
+			let own_subscription = inner_subscriptions.lock_ignore_poison().try_remove(key);
+			drop(own_subscription);
+
+			let is_below_concurrency_limit = {
+				let state = state.lock_ignore_poison();
+				state.non_completed_subscriptions < concurrency_limit.into()
+					&& !state.downstream_subscriber_state.is_closed()
 			};
 
-			if no_more_subscribers_besides_this
-				&& !state
-					.lock_ignore_poison()
-					.downstream_subscriber_state
-					.is_closed()
+			if is_below_concurrency_limit
 			{
 				subscribe_to_next_in_queue(
 					state.clone(),
-- 
2.43.0


From 2dbb5b91d86d808ada7bb2dd5fb23c29cc25ae05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:20 +0000
Subject: [PATCH 06/47] fix: switch and exhaust report closed and stop
 subscribing once their destination has closed

---
 .../src/exhaust_subscriber.rs                                 | 4 ++--
 .../src/switch_subscriber.rs                                  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/rx_core_subscriber_higher_order_exhaust/src/exhaust_subscriber.rs b/crates/rx_core_subscriber_higher_order_exhaust/src/exhaust_subscriber.rs
index 78ecd64..8cf9688 100644
--- a/crates/rx_core_subscriber_higher_order_exhaust/src/exhaust_subscriber.rs
+++ b/crates/rx_core_subscriber_higher_order_exhaust/src/exhaust_subscriber.rs
@@ -124,11 +124,11 @@ where
 {
 	#[inline]
 	fn is_closed(&self) -> bool {
-		self.outer_teardown.is_closed()
+		self.outer_teardown.is_closed() || self.shared_destination.is_closed()
 	}
 
 	fn unsubscribe(&mut self) {
-		if !self.is_closed() {
+		if !self.outer_teardown.is_closed() {
 			if let Some(subscription_handle) = &mut self.inner_subscription {
 				subscription_handle.unsubscribe();
 			};
diff --git a/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs b/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs
index e19c081..18de9a3 100644
--- a/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs
+++ b/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs
@@ -141,11 +141,11 @@ where
 {
 	#[inline]
 	fn is_closed(&self) -> bool {
-		self.outer_teardown.is_closed()
+		self.outer_teardown.is_closed() || self.shared_destination.is_closed()
 	}
 
 	fn unsubscribe(&mut self) {
-		if !self.is_closed() {
+		if !self.outer_teardown.is_closed() {
 			self.outer_teardown.unsubscribe();
 			self.shared_destination.unsubscribe();
 			if let Some(subscription_handle) = &mut self.inner_subscription.take() {
-- 
2.43.0


From 67724bc3559efa825e5c4346858b4ffdc63c0554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:20 +0000
Subject: [PATCH 07/47] fix: a second inner error while the first is still
 deferred does not panic

---
 .../src/higher_order_subscriber_inner.rs                   | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/rx_core_subscriber_higher_order/src/higher_order_subscriber_inner.rs b/crates/rx_core_subscriber_higher_order/src/higher_order_subscriber_inner.rs
index 8aa3245..f84a9a1 100644
--- a/crates/rx_core_subscriber_higher_order/src/higher_order_subscriber_inner.rs
+++ b/crates/rx_core_subscriber_higher_order/src/higher_order_subscriber_inner.rs
@@ -82,8 +82,11 @@ where
 
 	fn error(&mut self, error: Self::InError) {
 		if !self.is_closed() {
-			self.state.lock_ignore_poison().downstream_error();
-			self.shared_destination.error(error);
+			// While a nested terminal notification is still deferred, there can't be another
+			if !self.shared_destination.is_closed() {
+				self.state.lock_ignore_poison().downstream_error();
+				self.shared_destination.error(error);
+			}
 			self.unsubscribe();
 		}
 	}
-- 
2.43.0


From d6722a97ee2b962bef43d5d45c1effe33658c481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:15 +0000
Subject: [PATCH 08/47] fix: zip completes or unsubscribes once either input
 can pair no more values

---
 crates/rx_core_observable_zip/src/zip_subscriber.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/crates/rx_core_observable_zip/src/zip_subscriber.rs b/crates/rx_core_observable_zip/src/zip_subscriber.rs
index b8537d2..bcdce32 100644
--- a/crates/rx_core_observable_zip/src/zip_subscriber.rs
+++ b/crates/rx_core_observable_zip/src/zip_subscriber.rs
@@ -76,9 +76,7 @@ where
 
 	fn try_complete(&mut self) {
 		if !self.destination.is_closed()
-			&& ((self.o1_queue.is_completed() && self.o2_queue.is_completed())
-				|| (self.o1_queue.is_completed() && self.o2_queue.is_empty())
-				|| (self.o1_queue.is_empty() && self.o2_queue.is_completed()))
+			&& (self.o1_queue.is_completed() || self.o2_queue.is_completed())
 		{
 			self.destination.complete();
 		}
@@ -86,9 +84,7 @@ where
 
 	fn try_unsubscribe(&mut self) {
 		if !self.destination.is_closed()
-			&& ((self.o1_queue.is_closed() && self.o2_queue.is_closed())
-				|| (self.o1_queue.is_empty() && self.o2_queue.is_closed())
-				|| (self.o1_queue.is_closed() && self.o2_queue.is_empty()))
+			&& (self.o1_queue.is_closed() || self.o2_queue.is_closed())
 		{
 			self.destination.unsubscribe();
 		}
-- 
2.43.0


From 3aa94358d046fb22281441f0109f957b15c0d09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:15 +0000
Subject: [PATCH 09/47] fix: with_latest_from unsubscribes its inner observable
 however its destination closes

---
 .../src/with_latest_from_subscriber.rs              | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/crates/rx_core_operator_with_latest_from/src/with_latest_from_subscriber.rs b/crates/rx_core_operator_with_latest_from/src/with_latest_from_subscriber.rs
index 1833da2..c41fc99 100644
--- a/crates/rx_core_operator_with_latest_from/src/with_latest_from_subscriber.rs
+++ b/crates/rx_core_operator_with_latest_from/src/with_latest_from_subscriber.rs
@@ -4,8 +4,8 @@ use std::{
 };
 
 use rx_core_common::{
-	LockWithPoisonBehavior, Observable, ObserverSubscriber, PhantomInvariant, RxObserver,
-	SharedSubscriber, Signal, Subscriber, SubscriptionLike,
+	LockWithPoisonBehavior, Observable, PhantomInvariant, RxObserver, SharedSubscriber, Signal,
+	Subscriber, SubscriptionLike, TeardownCollection,
 };
 use rx_core_macro_subscriber_derive::RxSubscriber;
 
@@ -25,9 +25,6 @@ where
 {
 	#[destination]
 	destination: SharedSubscriber<Destination>,
-	inner_subscription: <InnerObservable as Observable>::Subscription<
-		ObserverSubscriber<WithLatestFromInnerDestination<InnerObservable::Out, Destination>>,
-	>,
 	state: Arc<Mutex<WithLatestFromInnerDestinationState<InnerObservable::Out>>>,
 	_phantom_data: PhantomInvariant<InnerObservable>,
 }
@@ -40,16 +37,17 @@ where
 	Destination: Subscriber<In = (In, InnerObservable::Out), InError = InnerObservable::OutError>,
 {
 	pub fn new(destination: Destination, inner_observable: &mut InnerObservable) -> Self {
-		let shared_destination = SharedSubscriber::new(destination);
+		let mut shared_destination = SharedSubscriber::new(destination);
 		let inner_destination =
 			WithLatestFromInnerDestination::<InnerObservable::Out, Destination>::new(
 				shared_destination.clone(),
 			);
 		let state = inner_destination.get_state();
 		let inner_subscription = inner_observable.subscribe(inner_destination);
+		// However the destination closes, the inner subscription ends with it
+		shared_destination.add_teardown(inner_subscription.into());
 		Self {
 			destination: shared_destination,
-			inner_subscription,
 			state,
 			_phantom_data: PhantomData,
 		}
@@ -98,7 +96,6 @@ where
 	}
 
 	fn unsubscribe(&mut self) {
-		self.inner_subscription.unsubscribe();
 		self.destination.unsubscribe();
 	}
 }
-- 
2.43.0


From ba37bb75d890bb833a4c6256f751d79a9c3c4d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:48 +0000
Subject: [PATCH 10/47] fix: behavior and replay subjects neither store values
 once closed nor replay to a closed destination

---
 .../rx_core_subject_behavior/src/behavior_subject.rs  |  9 ++++++---
 crates/rx_core_subject_replay/src/replay_subject.rs   | 11 +++++++++--
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/crates/rx_core_subject_behavior/src/behavior_subject.rs b/crates/rx_core_subject_behavior/src/behavior_subject.rs
index 73da64d..2224813 100644
--- a/crates/rx_core_subject_behavior/src/behavior_subject.rs
+++ b/crates/rx_core_subject_behavior/src/behavior_subject.rs
@@ -1,7 +1,8 @@
 use std::sync::{Arc, Mutex};
 
 use rx_core_common::{
-	LockWithPoisonBehavior, Never, Observable, RxObserver, Signal, Subscriber, UpgradeableObserver,
+	LockWithPoisonBehavior, Never, Observable, RxObserver, Signal, Subscriber, SubscriptionLike,
+	UpgradeableObserver,
 };
 use rx_core_macro_subject_derive::RxSubject;
 use rx_core_subject_publish::{internal::MulticastSubscription, subject::PublishSubject};
@@ -62,7 +63,9 @@ where
 	InError: Signal + Clone,
 {
 	fn next(&mut self, next: In) {
-		*self.value.lock_ignore_poison() = next.clone();
+		if !self.subject.is_closed() {
+			*self.value.lock_ignore_poison() = next.clone();
+		}
 		self.subject.next(next);
 	}
 
@@ -96,7 +99,7 @@ where
 	{
 		let mut destination = destination.upgrade();
 
-		if !self.subject.is_errored() {
+		if !self.subject.is_errored() && !destination.is_closed() {
 			let next = self.value.lock_ignore_poison().clone();
 			destination.next(next);
 		}
diff --git a/crates/rx_core_subject_replay/src/replay_subject.rs b/crates/rx_core_subject_replay/src/replay_subject.rs
index 654e2da..af9765a 100644
--- a/crates/rx_core_subject_replay/src/replay_subject.rs
+++ b/crates/rx_core_subject_replay/src/replay_subject.rs
@@ -2,7 +2,8 @@ use std::sync::{Arc, Mutex};
 
 use ringbuffer::{ConstGenericRingBuffer, RingBuffer};
 use rx_core_common::{
-	LockWithPoisonBehavior, Never, Observable, RxObserver, Signal, Subscriber, UpgradeableObserver,
+	LockWithPoisonBehavior, Never, Observable, RxObserver, Signal, Subscriber, SubscriptionLike,
+	UpgradeableObserver,
 };
 use rx_core_macro_subject_derive::RxSubject;
 use rx_core_subject_publish::{internal::MulticastSubscription, subject::PublishSubject};
@@ -62,7 +63,9 @@ where
 	InError: Signal + Clone,
 {
 	fn next(&mut self, next: In) {
-		self.values.lock_ignore_poison().enqueue(next.clone());
+		if !self.subject.is_closed() {
+			self.values.lock_ignore_poison().enqueue(next.clone());
+		}
 
 		self.subject.next(next);
 	}
@@ -101,6 +104,10 @@ where
 			let buffer_iter = self.values.lock_ignore_poison().clone().into_iter();
 
 			for value in buffer_iter {
+				if destination.is_closed() {
+					break;
+				}
+
 				destination.next(value);
 			}
 		}
-- 
2.43.0


From cdb5ae8b9d3c2a97f9bee1f00966cfb0bba070fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:48 +0000
Subject: [PATCH 11/47] fix: the async subject ignores values once closed and
 emits its result only once

---
 .../src/async_subject.rs                      | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/crates/rx_core_subject_async/src/async_subject.rs b/crates/rx_core_subject_async/src/async_subject.rs
index f38c232..6597fc2 100644
--- a/crates/rx_core_subject_async/src/async_subject.rs
+++ b/crates/rx_core_subject_async/src/async_subject.rs
@@ -1,4 +1,7 @@
-use std::sync::{Arc, Mutex};
+use std::sync::{
+	Arc, Mutex,
+	atomic::{AtomicBool, Ordering},
+};
 
 use rx_core_common::{
 	LockWithPoisonBehavior, Never, Observable, RxObserver, Signal, Subscriber, SubscriptionLike,
@@ -40,6 +43,9 @@ where
 	subject: PublishSubject<In, InError>,
 	reducer: Reducer,
 	value: Arc<Mutex<Option<In>>>,
+	/// The result is only emitted once, even if something completes the subject
+	/// again in response to it.
+	result_emitted: Arc<AtomicBool>,
 }
 
 impl<In, InError> Default for AsyncSubject<In, InError, DefaultReducer<In>>
@@ -53,6 +59,7 @@ where
 			reducer: default_reducer::<In>,
 			subject: PublishSubject::default(),
 			value: Arc::new(Mutex::new(None)),
+			result_emitted: Arc::default(),
 		}
 	}
 }
@@ -69,6 +76,7 @@ where
 			reducer,
 			subject: PublishSubject::default(),
 			value: Arc::new(Mutex::new(None)),
+			result_emitted: Arc::default(),
 		}
 	}
 
@@ -85,6 +93,10 @@ where
 	InError: Signal + Clone,
 {
 	fn next(&mut self, next: In) {
+		if self.subject.is_closed() || self.result_emitted.load(Ordering::Relaxed) {
+			return;
+		}
+
 		let mut value = self.value.lock_ignore_poison();
 
 		let next_value = if let Some(current) = value.take() {
@@ -103,6 +115,10 @@ where
 
 	#[inline]
 	fn complete(&mut self) {
+		if self.result_emitted.swap(true, Ordering::Relaxed) {
+			return;
+		}
+
 		let value = self.value.lock_ignore_poison().clone();
 
 		if let Some(value) = value {
@@ -137,6 +153,7 @@ where
 			let value = self.value.lock_ignore_poison().clone();
 
 			if !self.subject.is_errored()
+				&& !destination.is_closed()
 				&& let Some(next) = value
 			{
 				destination.next(next);
-- 
2.43.0


From 8b88f404b765a42b4d6a08e3f27e86c9ba04ac53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:48 +0000
Subject: [PATCH 12/47] fix: a subject lets go of subscribers that were closed
 when unsubscribed and applies what their teardowns deferred

---
 .../rx_core_subject_publish/src/multicast.rs  | 12 ++++++++++
 .../src/multicast_subscription.rs             | 24 +++++++++----------
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/crates/rx_core_subject_publish/src/multicast.rs b/crates/rx_core_subject_publish/src/multicast.rs
index 039c7f1..6d5dff1 100644
--- a/crates/rx_core_subject_publish/src/multicast.rs
+++ b/crates/rx_core_subject_publish/src/multicast.rs
@@ -196,6 +196,18 @@ where
 		}
 	}
 
+	/// Applies the deferred notifications unless another call is holding the
+	/// subscribers, in which case that one will. Once the subscribers are
+	/// released it is checked again, another thread could have deferred
+	/// something in the meantime.
+	pub(crate) fn try_apply_deferred(&self) {
+		while self.deferred_state.lock_ignore_poison().is_dirty()
+			&& let Ok(mut subscribers) = self.subscribers.try_lock()
+		{
+			Self::apply_notification_queue(self.deferred_state.clone(), &mut subscribers);
+		}
+	}
+
 	pub(crate) fn try_add_subscriber(
 		&mut self,
 		subscriber: Arc<Mutex<dyn Subscriber<In = In, InError = InError>>>,
diff --git a/crates/rx_core_subject_publish/src/multicast_subscription.rs b/crates/rx_core_subject_publish/src/multicast_subscription.rs
index 4711b19..75559d6 100644
--- a/crates/rx_core_subject_publish/src/multicast_subscription.rs
+++ b/crates/rx_core_subject_publish/src/multicast_subscription.rs
@@ -72,21 +72,21 @@ where
 	InError: Signal + Clone,
 {
 	fn is_closed(&self) -> bool {
-		if let Some(subscriber) = self.subscriber.as_ref() {
-			subscriber.is_closed()
-		} else {
-			true
-		}
+		self.try_check_is_closed()
 	}
 
 	fn unsubscribe(&mut self) {
-		if !self.try_check_is_closed()
-			&& let Some(id) = self.id
-			&& let Err(_unsubscribe_error) = self.subscribers.try_unsubscribe_by_id(id)
-		{
-			self.state
-				.lock_ignore_poison()
-				.defer_notification(MulticastNotification::UnsubscribeById(id));
+		// Even when the subscriber is already closed the subject has to let go
+		// of it.
+		if let Some(id) = self.id.take() {
+			if let Err(_unsubscribe_error) = self.subscribers.try_unsubscribe_by_id(id) {
+				self.state
+					.lock_ignore_poison()
+					.defer_notification(MulticastNotification::UnsubscribeById(id));
+			}
+
+			// The teardowns of the subscriber could have notified the subject
+			self.subscribers.try_apply_deferred();
 		}
 
 		self.subscriber.take();
-- 
2.43.0


From 639bfb0987a30b8fa3e93c0b9cec6ff4d771fb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:48 +0000
Subject: [PATCH 13/47] fix: subscribing to a finished subject neither notifies
 closed subscribers nor deadlocks when they use the subject

---
 .../src/publish_subject.rs                    | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/crates/rx_core_subject_publish/src/publish_subject.rs b/crates/rx_core_subject_publish/src/publish_subject.rs
index 095eb93..b54aa8a 100644
--- a/crates/rx_core_subject_publish/src/publish_subject.rs
+++ b/crates/rx_core_subject_publish/src/publish_subject.rs
@@ -72,14 +72,7 @@ where
 	InError: Signal + Clone,
 {
 	fn try_apply_deferred(&mut self) {
-		if self.deferred_state.lock_ignore_poison().is_dirty()
-			&& let Ok(mut subscribers) = self.subscribers.subscribers.try_lock()
-		{
-			SharedSubscribers::apply_notification_queue(
-				self.deferred_state.clone(),
-				&mut subscribers,
-			);
-		}
+		self.subscribers.try_apply_deferred();
 	}
 }
 
@@ -117,11 +110,18 @@ where
 
 		let mut subscriber = destination.upgrade();
 
-		{
+		let (observed_error, is_completed) = {
 			let state = self.deferred_state.lock_ignore_poison();
-			if let Some(error) = state.observed_error.clone() {
+			(
+				state.observed_error.clone(),
+				state.observed_state.is_completed(),
+			)
+		};
+
+		if !subscriber.is_closed() {
+			if let Some(error) = observed_error {
 				subscriber.error(error);
-			} else if state.observed_state.is_completed() {
+			} else if is_completed {
 				subscriber.complete();
 			}
 		}
-- 
2.43.0


From 81cf65d9b1c9f5eefaa447d4685d09a1919f76ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:15 +0000
Subject: [PATCH 14/47] fix: cancelling an invokable work drops its own pending
 invocations instead of all the others

---
 crates/rx_core_scheduler_ticking/src/ticking_executor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/rx_core_scheduler_ticking/src/ticking_executor.rs b/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
index 7e22a44..74278b1 100644
--- a/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
+++ b/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
@@ -173,7 +173,7 @@ where
 				ScheduledWorkAction::CancelInvoked(cancelled_invocation_id) => {
 					self.invokable_work.remove(&cancelled_invocation_id);
 					self.invoked
-						.retain(|invoked_id| invoked_id == &cancelled_invocation_id);
+						.retain(|invoked_id| invoked_id != &cancelled_invocation_id);
 				}
 				ScheduledWorkAction::Cancel(cancelled_id) => {
 					if let Some(work_ids) = self.cancellation_map.remove(&cancelled_id) {
-- 
2.43.0


From 2d691b6b81949fd4373721e03ada6db810aec7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:15 +0000
Subject: [PATCH 15/47] fix: work does not observe time going backwards when
 the executor is ticked to an earlier time

---
 crates/rx_core_scheduler_ticking/src/ticking_executor.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/rx_core_scheduler_ticking/src/ticking_executor.rs b/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
index 74278b1..c9535cd 100644
--- a/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
+++ b/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
@@ -112,6 +112,8 @@ where
 
 	pub fn tick_to(&mut self, tick: Tick, context: &mut C::Item<'_>) {
 		self.current_tick.update(tick);
+		// Time never goes backwards for the work either
+		let tick = self.current_tick;
 		self.already_ticked.clear();
 
 		// It should almost always finish in 1-2 loops, but in case something
-- 
2.43.0


From 3081d0f09963bb759506136205b568bc078af4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:32 +0000
Subject: [PATCH 16/47] fix: the executor forgets the cancellation ids of work
 that is done

---
 .../src/ticking_executor.rs                    | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/crates/rx_core_scheduler_ticking/src/ticking_executor.rs b/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
index c9535cd..fb18ad5 100644
--- a/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
+++ b/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
@@ -40,7 +40,10 @@ where
 	work_id_generator: WorkIdGenerator,
 	active_work: IndexMap<
 		WorkId,
-		Box<dyn ScheduledWork<Tick = Tick, WorkContextProvider = C> + Send + Sync>,
+		(
+			WorkCancellationId,
+			Box<dyn ScheduledWork<Tick = Tick, WorkContextProvider = C> + Send + Sync>,
+		),
 	>,
 	cancellation_map: HashMap<WorkCancellationId, Vec<WorkId>>,
 	invokable_work: HashMap<
@@ -160,7 +163,7 @@ where
 			match action {
 				ScheduledWorkAction::<Tick, C>::Activate((cancellation_id, work)) => {
 					let work_id = self.work_id_generator.get_next();
-					self.active_work.insert(work_id, work);
+					self.active_work.insert(work_id, (cancellation_id, work));
 					self.cancellation_map
 						.entry(cancellation_id)
 						.or_default()
@@ -197,7 +200,7 @@ where
 		let mut work_ticked = Vec::<WorkId>::new();
 		let mut work_finished_this_tick = Vec::<WorkId>::new();
 
-		for (work_id, work) in self
+		for (work_id, (_, work)) in self
 			.active_work
 			.iter_mut()
 			.filter(|(key, _)| !self.already_ticked.contains(key))
@@ -218,7 +221,14 @@ where
 		}
 
 		for work_id in work_finished_this_tick {
-			self.active_work.shift_remove(&work_id);
+			if let Some((cancellation_id, _)) = self.active_work.shift_remove(&work_id)
+				&& let Some(work_ids) = self.cancellation_map.get_mut(&cancellation_id)
+			{
+				work_ids.retain(|id| id != &work_id);
+				if work_ids.is_empty() {
+					self.cancellation_map.remove(&cancellation_id);
+				}
+			}
 		}
 
 		no_work_ticked
-- 
2.43.0


From f94fd3d988374146dca87b3e5e567678a8be8d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:32 +0000
Subject: [PATCH 17/47] fix: cancelled work is dropped without holding the
 scheduler

---
 .../src/ticking_executor.rs                       | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/crates/rx_core_scheduler_ticking/src/ticking_executor.rs b/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
index fb18ad5..fea3399 100644
--- a/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
+++ b/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
@@ -155,11 +155,16 @@ where
 	}
 
 	fn drain_scheduler_queue(&mut self, tick: Tick) -> bool {
-		let mut scheduler = self.scheduler.lock();
-		let had_actions = scheduler.has_actions();
-		scheduler.update_tick(tick);
-
-		for action in scheduler.drain_actions() {
+		// The scheduler is not kept locked, dropping cancelled work could drop
+		// something that uses it.
+		let actions = {
+			let mut scheduler = self.scheduler.lock();
+			scheduler.update_tick(tick);
+			scheduler.drain_actions().collect::<Vec<_>>()
+		};
+		let had_actions = !actions.is_empty();
+
+		for action in actions {
 			match action {
 				ScheduledWorkAction::<Tick, C>::Activate((cancellation_id, work)) => {
 					let work_id = self.work_id_generator.get_next();
-- 
2.43.0


From 460f416adda7d6ac537aeceda0e8dd0566c9ccde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:54 +0000
Subject: [PATCH 18/47] fix: work cancelled by work running earlier in the same
 tick does not run

---
 .../src/scheduler/rx_bevy_scheduler.rs        | 10 +++++++++
 .../src/ticking_executor.rs                   | 22 ++++++++++++++++++-
 .../src/ticking_scheduler.rs                  | 20 +++++++++++++++++
 3 files changed, 51 insertions(+), 1 deletion(-)

diff --git a/crates/rx_bevy_common/src/scheduler/rx_bevy_scheduler.rs b/crates/rx_bevy_common/src/scheduler/rx_bevy_scheduler.rs
index 2a74e98..1dd4bb5 100644
--- a/crates/rx_bevy_common/src/scheduler/rx_bevy_scheduler.rs
+++ b/crates/rx_bevy_common/src/scheduler/rx_bevy_scheduler.rs
@@ -28,6 +28,16 @@ impl SchedulerForTickingExecutor for RxBevyScheduler {
 		self.ticking_scheduler.has_actions()
 	}
 
+	#[inline]
+	fn is_cancelled(&self, cancellation_id: WorkCancellationId) -> bool {
+		self.ticking_scheduler.is_cancelled(cancellation_id)
+	}
+
+	#[inline]
+	fn is_invoke_cancelled(&self, invoke_id: WorkInvokeId) -> bool {
+		self.ticking_scheduler.is_invoke_cancelled(invoke_id)
+	}
+
 	#[inline]
 	fn update_tick(&mut self, tick: Tick) {
 		self.ticking_scheduler.update_tick(tick);
diff --git a/crates/rx_core_scheduler_ticking/src/ticking_executor.rs b/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
index fea3399..3b9a65a 100644
--- a/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
+++ b/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
@@ -23,6 +23,16 @@ pub trait SchedulerForTickingExecutor: Scheduler {
 
 	/// Returns true if there are work actions queued.
 	fn has_actions(&self) -> bool;
+
+	/// Returns true if a not yet drained action cancels this work.
+	fn is_cancelled(&self, _cancellation_id: WorkCancellationId) -> bool {
+		false
+	}
+
+	/// Returns true if a not yet drained action cancels this invokable work.
+	fn is_invoke_cancelled(&self, _invoke_id: WorkInvokeId) -> bool {
+		false
+	}
 }
 
 #[derive(RxExecutor)]
@@ -145,6 +155,11 @@ where
 
 	fn execute_invoked(&mut self, tick: Tick, context: &mut C::Item<'_>) {
 		for invoked_id in self.invoked.drain(..) {
+			// Something that ran earlier in this tick cancelled it
+			if self.scheduler.lock().is_invoke_cancelled(invoked_id) {
+				continue;
+			}
+
 			if let Some(invoked_work) = self.invokable_work.get_mut(&invoked_id) {
 				let invoke_result = invoked_work.tick(tick, context);
 				if matches!(invoke_result, WorkResult::Done) {
@@ -205,11 +220,16 @@ where
 		let mut work_ticked = Vec::<WorkId>::new();
 		let mut work_finished_this_tick = Vec::<WorkId>::new();
 
-		for (work_id, (_, work)) in self
+		for (work_id, (cancellation_id, work)) in self
 			.active_work
 			.iter_mut()
 			.filter(|(key, _)| !self.already_ticked.contains(key))
 		{
+			// Something that ran earlier in this tick cancelled it
+			if self.scheduler.lock().is_cancelled(*cancellation_id) {
+				continue;
+			}
+
 			let work_result = work.tick(tick, context);
 
 			if matches!(work_result, WorkResult::Done) {
diff --git a/crates/rx_core_scheduler_ticking/src/ticking_scheduler.rs b/crates/rx_core_scheduler_ticking/src/ticking_scheduler.rs
index 4c98567..e64e5d5 100644
--- a/crates/rx_core_scheduler_ticking/src/ticking_scheduler.rs
+++ b/crates/rx_core_scheduler_ticking/src/ticking_scheduler.rs
@@ -1,3 +1,5 @@
+use std::collections::HashSet;
+
 use derive_where::derive_where;
 use rx_core_common::{
 	ScheduledWork, ScheduledWorkAction, Scheduler, WorkCancellationId, WorkCancellationIdGenerator,
@@ -23,6 +25,10 @@ where
 	/// Updated by the executor at the start of each tick.
 	pub(crate) current_tick: Tick,
 	action_queue: Vec<ScheduledWorkAction<Tick, C>>,
+
+	/// Everything the actions currently in the queue cancel.
+	cancelled: HashSet<WorkCancellationId>,
+	cancelled_invokes: HashSet<WorkInvokeId>,
 }
 
 impl<C> SchedulerForTickingExecutor for TickingScheduler<C>
@@ -31,6 +37,8 @@ where
 {
 	#[inline]
 	fn drain_actions(&mut self) -> std::vec::Drain<'_, ScheduledWorkAction<Tick, C>> {
+		self.cancelled.clear();
+		self.cancelled_invokes.clear();
 		self.action_queue.drain(..)
 	}
 
@@ -39,6 +47,16 @@ where
 		!self.action_queue.is_empty()
 	}
 
+	#[inline]
+	fn is_cancelled(&self, cancellation_id: WorkCancellationId) -> bool {
+		self.cancelled.contains(&cancellation_id)
+	}
+
+	#[inline]
+	fn is_invoke_cancelled(&self, invoke_id: WorkInvokeId) -> bool {
+		self.cancelled_invokes.contains(&invoke_id)
+	}
+
 	#[inline]
 	fn update_tick(&mut self, tick: Tick) {
 		self.current_tick.update(tick);
@@ -87,11 +105,13 @@ where
 
 	#[inline]
 	fn cancel_invoked(&mut self, invoke_id: WorkInvokeId) {
+		self.cancelled_invokes.insert(invoke_id);
 		self.action_queue
 			.push(ScheduledWorkAction::CancelInvoked(invoke_id));
 	}
 
 	fn cancel(&mut self, owner_id: WorkCancellationId) {
+		self.cancelled.insert(owner_id);
 		self.action_queue
 			.push(ScheduledWorkAction::Cancel(owner_id));
 	}
-- 
2.43.0


From ff3e3469ab6c2ecde44e036d0349dd04498de0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:55 +0000
Subject: [PATCH 19/47] fix: repeated work without an interval does not loop
 forever

---
 .../src/work/ticked_work_repeating.rs                        | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/rx_core_scheduler_ticking/src/work/ticked_work_repeating.rs b/crates/rx_core_scheduler_ticking/src/work/ticked_work_repeating.rs
index ed0695a..3e5894c 100644
--- a/crates/rx_core_scheduler_ticking/src/work/ticked_work_repeating.rs
+++ b/crates/rx_core_scheduler_ticking/src/work/ticked_work_repeating.rs
@@ -93,6 +93,11 @@ where
 				self.start_immediately = false;
 			}
 			executions += 1;
+
+			// Without an interval there is always more work due
+			if self.interval.is_zero() && executions >= self.max_work_per_tick.into() {
+				break;
+			}
 		}
 		work_result
 	}
-- 
2.43.0


From 2f1f6eab593ea75ab6218c583f6ad87819b5f54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:26 +0000
Subject: [PATCH 20/47] fix: throttle_time emits its trailing value when a tick
 passes the end of the window, and leaves no work behind once closed

---
 .../src/throttle_time_subscriber.rs           | 55 ++++++++-----------
 1 file changed, 23 insertions(+), 32 deletions(-)

diff --git a/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs b/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
index 381f2f4..d106a6c 100644
--- a/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
+++ b/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
@@ -96,35 +96,25 @@ where
 						return WorkResult::Pending;
 					}
 
-					if deadline < state.last_tick_time {
-						state.throttle_deadline = None;
-
-						(
-							false,
-							None,
-							state.upstream_state.is_completed(),
-							state.upstream_state.is_closed_but_not_completed(),
-						)
+					// The tick that ends the window can also be past its deadline
+					let emit_value = if options.output_behavior.emits_trailing() {
+						state.last_value.take()
 					} else {
-						let emit_value = if options.output_behavior.emits_trailing() {
-							state.last_value.take()
-						} else {
-							state.last_value = None;
-							None
-						};
-
-						let continue_for_cooldown = emit_value.is_some();
-						if !continue_for_cooldown {
-							state.throttle_deadline = None;
-						}
+						state.last_value = None;
+						None
+					};
 
-						(
-							continue_for_cooldown,
-							emit_value,
-							state.upstream_state.is_completed(),
-							state.upstream_state.is_closed_but_not_completed(),
-						)
+					let continue_for_cooldown = emit_value.is_some();
+					if !continue_for_cooldown {
+						state.throttle_deadline = None;
 					}
+
+					(
+						continue_for_cooldown,
+						emit_value,
+						state.upstream_state.is_completed(),
+						state.upstream_state.is_closed_but_not_completed(),
+					)
 				};
 
 				if let Some(value) = emit_value {
@@ -184,17 +174,18 @@ where
 				Some(_) => {
 					// Throttle over, start new window
 					state.throttle_deadline = Some(state.last_tick_time + self.options.duration);
-					debug_assert!(
-						self.options.output_behavior.emits_trailing(),
-						"cooldown can only occur when trailing is enabled"
-					);
-					state.last_value = Some(next);
+					if self.options.output_behavior.emits_trailing() {
+						state.last_value = Some(next);
+					} else {
+						// Without a duration the window is over immediately
+						self.destination.next(next);
+					}
 				}
 			};
 			was_idle
 		};
 
-		if was_idle {
+		if was_idle && !self.destination.is_closed() {
 			self.schedule_throttle_work();
 		}
 	}
-- 
2.43.0


From b4089caccb5441240f68d17d0cdd2cff73706299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:26 +0000
Subject: [PATCH 21/47] fix: fallback_when_silent stops its work once its
 destination is closed

---
 .../src/fallback_when_silent_subscriber.rs                    | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/rx_core_operator_fallback_when_silent/src/fallback_when_silent_subscriber.rs b/crates/rx_core_operator_fallback_when_silent/src/fallback_when_silent_subscriber.rs
index 75c037f..1b92082 100644
--- a/crates/rx_core_operator_fallback_when_silent/src/fallback_when_silent_subscriber.rs
+++ b/crates/rx_core_operator_fallback_when_silent/src/fallback_when_silent_subscriber.rs
@@ -67,6 +67,10 @@ where
 		let mut index = 0;
 		scheduler.schedule_continuous_work(
 			move |tick, context| {
+				if shared_destination_clone.is_closed() {
+					return WorkResult::Done;
+				}
+
 				let observed_next = {
 					let mut state = shared_state_clone.lock().unwrap_or_else(|a| a.into_inner());
 					state.next_observed_this_tick.take()
-- 
2.43.0


From 1f2b591609e48ec0ef520351c5c1bdee0ac5e49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:26 +0000
Subject: [PATCH 22/47] fix: interval and timer do not emit anymore once
 unsubscribed while emitting

---
 .../src/interval_subscription.rs                    |  8 +++-----
 .../src/timer_subscription.rs                       | 13 ++++++-------
 2 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/crates/rx_core_observable_interval/src/interval_subscription.rs b/crates/rx_core_observable_interval/src/interval_subscription.rs
index addcea8..ead7888 100644
--- a/crates/rx_core_observable_interval/src/interval_subscription.rs
+++ b/crates/rx_core_observable_interval/src/interval_subscription.rs
@@ -38,7 +38,7 @@ where
 		let cancellation_id = {
 			let mut scheduler = scheduler.lock();
 			let cancellation_id = scheduler.generate_cancellation_id();
-			let destination_clone = destination.clone();
+			let mut destination_clone = destination.clone();
 
 			let mut count = if interval_subscription_options.start_on_subscribe {
 				1
@@ -48,13 +48,11 @@ where
 
 			scheduler.schedule_repeated_work(
 				move |_, _| {
-					let mut destination_lock = destination_clone.lock();
-
-					if destination_lock.is_closed() {
+					if destination_clone.is_closed() {
 						return WorkResult::Done;
 					}
 
-					destination_lock.next(count);
+					destination_clone.next(count);
 					count += 1;
 
 					WorkResult::Pending
diff --git a/crates/rx_core_observable_timer/src/timer_subscription.rs b/crates/rx_core_observable_timer/src/timer_subscription.rs
index 95b9bb4..8162019 100644
--- a/crates/rx_core_observable_timer/src/timer_subscription.rs
+++ b/crates/rx_core_observable_timer/src/timer_subscription.rs
@@ -1,8 +1,8 @@
 use std::time::Duration;
 
 use rx_core_common::{
-	Scheduler, SchedulerHandle, SchedulerScheduleWorkExtension, SharedSubscriber, Subscriber,
-	SubscriptionLike, WorkCancellationId,
+	RxObserver, Scheduler, SchedulerHandle, SchedulerScheduleWorkExtension, SharedSubscriber,
+	Subscriber, SubscriptionLike, WorkCancellationId,
 };
 use rx_core_macro_subscription_derive::RxSubscription;
 
@@ -34,14 +34,13 @@ where
 		let cancellation_id = {
 			let mut scheduler = scheduler_clone.lock();
 			let cancellation_id = scheduler.generate_cancellation_id();
-			let destination_clone = destination.clone();
+			let mut destination_clone = destination.clone();
 
 			scheduler.schedule_delayed_work(
 				move |_, _| {
-					let mut destination = destination_clone.lock();
-					destination.next(());
-					if !destination.is_closed() {
-						destination.complete();
+					destination_clone.next(());
+					if !destination_clone.is_closed() {
+						destination_clone.complete();
 					}
 				},
 				duration,
-- 
2.43.0


From 0beb23cca5093c9f3553367e29b14f0e0c6dde4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:26 +0000
Subject: [PATCH 23/47] fix: iterator_on_tick completes when there is nothing
 left to emit on a tick

---
 .../src/iterator_on_tick_subscription.rs      | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/crates/rx_core_observable_iterator_on_tick/src/iterator_on_tick_subscription.rs b/crates/rx_core_observable_iterator_on_tick/src/iterator_on_tick_subscription.rs
index 76592c0..b73ac67 100644
--- a/crates/rx_core_observable_iterator_on_tick/src/iterator_on_tick_subscription.rs
+++ b/crates/rx_core_observable_iterator_on_tick/src/iterator_on_tick_subscription.rs
@@ -70,6 +70,18 @@ where
 			destination.next(next);
 		}
 
+		// There might be nothing left to emit on a tick
+		if peekable_iterator.peek().is_none() {
+			destination.complete();
+
+			return OnTickIteratorSubscription {
+				destination,
+				owner_id: None,
+				scheduler,
+				_phantom_data: PhantomData,
+			};
+		}
+
 		let owner_id = {
 			let mut scheduler = scheduler_clone.lock();
 			let owner_id = scheduler.generate_cancellation_id();
@@ -85,8 +97,7 @@ where
 				move |_, _context| {
 					state.observed_ticks += 1;
 
-					let mut destination = state.destination.lock();
-					if destination.is_closed() {
+					if state.destination.is_closed() {
 						return WorkResult::Done;
 					}
 
@@ -96,9 +107,9 @@ where
 						&& let Some(value) = state.peekable_iterator.next()
 					{
 						state.observed_ticks = 0;
-						destination.next(value);
+						state.destination.next(value);
 						if state.peekable_iterator.peek().is_none() {
-							destination.complete();
+							state.destination.complete();
 							WorkResult::Done
 						} else {
 							WorkResult::Pending
-- 
2.43.0


From 477526d20f69424c05bfd5b3b869adedcc20ba4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:26 +0000
Subject: [PATCH 24/47] fix: a restarted adsr envelope does not lose the time
 of its second tick

---
 crates/rx_core_operator_adsr/src/adsr/adsr_envelope_state.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/rx_core_operator_adsr/src/adsr/adsr_envelope_state.rs b/crates/rx_core_operator_adsr/src/adsr/adsr_envelope_state.rs
index 86f5de5..d377532 100644
--- a/crates/rx_core_operator_adsr/src/adsr/adsr_envelope_state.rs
+++ b/crates/rx_core_operator_adsr/src/adsr/adsr_envelope_state.rs
@@ -69,6 +69,8 @@ impl AdsrEnvelopeState {
 			.contains(AdsrEnvelopePhaseTransition::Stop)
 		{
 			self.reset();
+			// When restarting, the envelope is already in its new phase
+			self.adsr_envelope_phase = adsr_envelope_phase;
 		}
 
 		let result = AdsrSignal {
-- 
2.43.0


From 09520b6d86161ff449f7b1afcfb10ba73b9b542a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:04 +0000
Subject: [PATCH 25/47] fix: a source that completes while subscribing does not
 cut off what its values started

---
 .../src/subscriptions/subscription.rs         | 20 +++++++++++++++++--
 .../src/empty_observable.rs                   |  7 +++----
 .../src/iterator_observable.rs                |  7 +++----
 .../src/just_observable.rs                    |  7 +++----
 .../src/throw_observable.rs                   |  7 +++----
 5 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/crates/rx_core_common/src/subscriptions/subscription.rs b/crates/rx_core_common/src/subscriptions/subscription.rs
index f1e74f5..41f5b09 100644
--- a/crates/rx_core_common/src/subscriptions/subscription.rs
+++ b/crates/rx_core_common/src/subscriptions/subscription.rs
@@ -1,11 +1,10 @@
 use rx_core_macro_subscription_derive::RxSubscription;
 
-use crate::Subscriber;
+use crate::{Subscriber, SubscriptionLike};
 
 #[derive(RxSubscription)]
 #[_rx_core_common_crate(crate)]
 #[rx_delegate_teardown_collection]
-#[rx_delegate_subscription_like_to_destination]
 pub struct Subscription<Destination>
 where
 	Destination: Subscriber,
@@ -22,3 +21,20 @@ where
 		Self { destination }
 	}
 }
+
+impl<Destination> SubscriptionLike for Subscription<Destination>
+where
+	Destination: Subscriber,
+{
+	#[inline]
+	fn is_closed(&self) -> bool {
+		self.destination.is_closed()
+	}
+
+	#[inline]
+	fn unsubscribe(&mut self) {
+		if !self.is_closed() {
+			self.destination.unsubscribe();
+		}
+	}
+}
diff --git a/crates/rx_core_observable_empty/src/empty_observable.rs b/crates/rx_core_observable_empty/src/empty_observable.rs
index f5d92bb..3b3ab6b 100644
--- a/crates/rx_core_observable_empty/src/empty_observable.rs
+++ b/crates/rx_core_observable_empty/src/empty_observable.rs
@@ -1,8 +1,7 @@
 use rx_core_common::{
-	Never, Observable, RxObserver, Subscriber, SubscriptionLike, UpgradeableObserver,
+	Never, Observable, RxObserver, Subscriber, Subscription, SubscriptionLike, UpgradeableObserver,
 };
 use rx_core_macro_observable_derive::RxObservable;
-use rx_core_subscription_inert::InertSubscription;
 
 /// # [EmptyObservable]
 ///
@@ -14,7 +13,7 @@ pub struct EmptyObservable;
 
 impl Observable for EmptyObservable {
 	type Subscription<Destination>
-		= InertSubscription
+		= Subscription<Destination>
 	where
 		Destination: 'static + Subscriber<In = Self::Out, InError = Self::OutError>;
 
@@ -30,6 +29,6 @@ impl Observable for EmptyObservable {
 		if !destination.is_closed() {
 			destination.complete();
 		}
-		InertSubscription::new(destination)
+		Subscription::new(destination)
 	}
 }
diff --git a/crates/rx_core_observable_iterator/src/iterator_observable.rs b/crates/rx_core_observable_iterator/src/iterator_observable.rs
index 848a939..11e8f37 100644
--- a/crates/rx_core_observable_iterator/src/iterator_observable.rs
+++ b/crates/rx_core_observable_iterator/src/iterator_observable.rs
@@ -1,8 +1,7 @@
 use rx_core_common::{
-	Never, Observable, RxObserver, Signal, Subscriber, SubscriptionLike, UpgradeableObserver,
+	Never, Observable, RxObserver, Signal, Subscriber, Subscription, SubscriptionLike, UpgradeableObserver,
 };
 use rx_core_macro_observable_derive::RxObservable;
-use rx_core_subscription_inert::InertSubscription;
 
 /// Emits all values from an iterator then immediately completes.
 #[derive(RxObservable, Clone, Debug)]
@@ -32,7 +31,7 @@ where
 	Iterator::Item: Signal,
 {
 	type Subscription<Destination>
-		= InertSubscription
+		= Subscription<Destination>
 	where
 		Destination: 'static + Subscriber<In = Self::Out, InError = Self::OutError>;
 
@@ -54,6 +53,6 @@ where
 		if !destination.is_closed() {
 			destination.complete();
 		}
-		InertSubscription::new(destination)
+		Subscription::new(destination)
 	}
 }
diff --git a/crates/rx_core_observable_just/src/just_observable.rs b/crates/rx_core_observable_just/src/just_observable.rs
index f51c429..7321db9 100644
--- a/crates/rx_core_observable_just/src/just_observable.rs
+++ b/crates/rx_core_observable_just/src/just_observable.rs
@@ -1,8 +1,7 @@
 use rx_core_common::{
-	Never, Observable, RxObserver, Signal, Subscriber, SubscriptionLike, UpgradeableObserver,
+	Never, Observable, RxObserver, Signal, Subscriber, Subscription, SubscriptionLike, UpgradeableObserver,
 };
 use rx_core_macro_observable_derive::RxObservable;
-use rx_core_subscription_inert::InertSubscription;
 
 /// # [JustObservable]
 ///
@@ -31,7 +30,7 @@ where
 	Out: Signal + Clone,
 {
 	type Subscription<Destination>
-		= InertSubscription
+		= Subscription<Destination>
 	where
 		Destination: 'static + Subscriber<In = Self::Out, InError = Self::OutError>;
 
@@ -50,6 +49,6 @@ where
 		if !destination.is_closed() {
 			destination.complete();
 		}
-		InertSubscription::new(destination)
+		Subscription::new(destination)
 	}
 }
diff --git a/crates/rx_core_observable_throw/src/throw_observable.rs b/crates/rx_core_observable_throw/src/throw_observable.rs
index 5a90c4c..6ab6fc8 100644
--- a/crates/rx_core_observable_throw/src/throw_observable.rs
+++ b/crates/rx_core_observable_throw/src/throw_observable.rs
@@ -1,8 +1,7 @@
 use rx_core_common::{
-	Never, Observable, RxObserver, Signal, Subscriber, SubscriptionLike, UpgradeableObserver,
+	Never, Observable, RxObserver, Signal, Subscriber, Subscription, SubscriptionLike, UpgradeableObserver,
 };
 use rx_core_macro_observable_derive::RxObservable;
-use rx_core_subscription_inert::InertSubscription;
 
 #[derive(RxObservable, Clone, Debug)]
 #[rx_out(Never)]
@@ -28,7 +27,7 @@ where
 	OutError: Signal + Clone,
 {
 	type Subscription<Destination>
-		= InertSubscription
+		= Subscription<Destination>
 	where
 		Destination: 'static + Subscriber<In = Self::Out, InError = Self::OutError>;
 
@@ -43,6 +42,6 @@ where
 		if !subscriber.is_closed() {
 			subscriber.error(self.error.clone());
 		}
-		InertSubscription::new(subscriber)
+		Subscription::new(subscriber)
 	}
 }
-- 
2.43.0


From 6f4738f96fccf319451891f5d9c51918b3426751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:43 +0000
Subject: [PATCH 26/47] fix: deferred notifications are not sent to a
 destination that has closed meanwhile

---
 crates/rx_core_common/src/subscribers/subscriber_shared.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/rx_core_common/src/subscribers/subscriber_shared.rs b/crates/rx_core_common/src/subscribers/subscriber_shared.rs
index 916b4bc..b6963ff 100644
--- a/crates/rx_core_common/src/subscribers/subscriber_shared.rs
+++ b/crates/rx_core_common/src/subscribers/subscriber_shared.rs
@@ -233,7 +233,9 @@ where
 				let is_closing = notification.is_closing();
 
 				// Other notifications can be safely dropped when already closed
-				if !state.lock_clear_poison().is_closed_ignoring_deferred() {
+				if !state.lock_clear_poison().is_closed_ignoring_deferred()
+					&& !subscriber.is_closed()
+				{
 					subscriber.push(notification);
 				}
 
-- 
2.43.0


From 3a4a5f304e8ea97d8242ffa54ee74cdc02bd58a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:43 +0000
Subject: [PATCH 27/47] fix: dematerialize forwards nothing after a
 materialized terminal notification

---
 .../src/dematerialize_subscriber.rs                | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/rx_core_operator_dematerialize/src/dematerialize_subscriber.rs b/crates/rx_core_operator_dematerialize/src/dematerialize_subscriber.rs
index 37b17de..6302619 100644
--- a/crates/rx_core_operator_dematerialize/src/dematerialize_subscriber.rs
+++ b/crates/rx_core_operator_dematerialize/src/dematerialize_subscriber.rs
@@ -12,6 +12,7 @@ where
 {
 	#[destination]
 	destination: Destination,
+	finished: bool,
 }
 
 impl<Destination> DematerializeSubscriber<Destination>
@@ -19,7 +20,10 @@ where
 	Destination: Subscriber,
 {
 	pub fn new(destination: Destination) -> Self {
-		Self { destination }
+		Self {
+			destination,
+			finished: false,
+		}
 	}
 }
 
@@ -31,12 +35,13 @@ where
 	fn next(&mut self, notification: Self::In) {
 		match notification {
 			ObserverNotification::Next(next) => {
-				if !self.is_closed() {
+				if !self.finished && !self.is_closed() {
 					self.destination.next(next)
 				}
 			}
 			ObserverNotification::Error(error) => {
-				if !self.is_closed() {
+				if !self.finished && !self.is_closed() {
+					self.finished = true;
 					self.destination.error(error);
 				}
 			}
@@ -50,7 +55,8 @@ where
 
 	#[inline]
 	fn complete(&mut self) {
-		if !self.is_closed() {
+		if !self.finished && !self.is_closed() {
+			self.finished = true;
 			self.destination.complete();
 		}
 	}
-- 
2.43.0


From 7412fc93703e08178e50141cce8d7479b60798e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:43 +0000
Subject: [PATCH 28/47] fix: retry forwards the latest error and leaves no
 failed attempt behind

---
 .../src/retry_observable.rs                   | 23 +++++---
 .../src/retry_subscriber.rs                   | 55 +++++++++++++++----
 2 files changed, 60 insertions(+), 18 deletions(-)

diff --git a/crates/rx_core_operator_retry/src/retry_observable.rs b/crates/rx_core_operator_retry/src/retry_observable.rs
index 30cea51..73e6e12 100644
--- a/crates/rx_core_operator_retry/src/retry_observable.rs
+++ b/crates/rx_core_operator_retry/src/retry_observable.rs
@@ -1,6 +1,9 @@
 use std::{
 	marker::PhantomData,
-	sync::{Arc, Mutex},
+	sync::{
+		Arc, Mutex,
+		atomic::{AtomicBool, Ordering},
+	},
 };
 
 use derive_where::derive_where;
@@ -56,8 +59,15 @@ where
 		let mut shared_destination = SharedSubscriber::new(destination.upgrade());
 		let mut outer_subscription = SharedSubscription::default();
 
+		// The subscription lasts until the destination closes, which may be
+		// later than the last notification sent to it.
+		outer_subscription.add(shared_destination.clone());
+		shared_destination.add(outer_subscription.clone());
+
 		let mut immediate_retries = 0;
 
+		let finished = Arc::new(AtomicBool::new(false));
+
 		let caught_error = Arc::new(Mutex::new(None));
 
 		let last_subscription = Arc::new(Mutex::new(Option::<SharedSubscription>::None));
@@ -74,6 +84,7 @@ where
 				outer_subscription.clone(),
 				last_subscription.clone(),
 				caught_error.clone(),
+				finished.clone(),
 			));
 
 			if !next_subscription.is_closed() {
@@ -98,12 +109,10 @@ where
 			}
 		}
 
-		if immediate_retries > self.max_retries {
-			if let Some(error) = caught_error.lock_ignore_poison().take() {
-				shared_destination.error(error);
-			}
-			shared_destination.unsubscribe();
-			outer_subscription.unsubscribe();
+		let last_error = caught_error.lock_ignore_poison().take();
+		if let Some(error) = last_error {
+			finished.store(true, Ordering::Relaxed);
+			shared_destination.error(error);
 		}
 
 		outer_subscription.clone()
diff --git a/crates/rx_core_operator_retry/src/retry_subscriber.rs b/crates/rx_core_operator_retry/src/retry_subscriber.rs
index b57c4ac..bb6db1d 100644
--- a/crates/rx_core_operator_retry/src/retry_subscriber.rs
+++ b/crates/rx_core_operator_retry/src/retry_subscriber.rs
@@ -1,4 +1,7 @@
-use std::sync::{Arc, Mutex};
+use std::sync::{
+	Arc, Mutex,
+	atomic::{AtomicBool, Ordering},
+};
 
 use rx_core_common::{
 	LockWithPoisonBehavior, Observable, ObserverTerminalNotification, RxObserver, SharedSubscriber,
@@ -26,6 +29,10 @@ where
 	outer_subscription: SharedSubscription,
 	last_subscription: Arc<Mutex<Option<SharedSubscription>>>,
 	caught_error: Arc<Mutex<Option<Source::OutError>>>,
+	/// Set once there's nothing more to send to the destination by any attempt
+	finished: Arc<AtomicBool>,
+	/// Set once this attempt has failed and is no longer of interest
+	failed: bool,
 }
 
 impl<Source, Destination> RetrySubscriber<Source, Destination>
@@ -41,6 +48,7 @@ where
 		outer_subscription: SharedSubscription,
 		last_subscription: Arc<Mutex<Option<SharedSubscription>>>,
 		caught_error: Arc<Mutex<Option<Source::OutError>>>,
+		finished: Arc<AtomicBool>,
 	) -> Self {
 		Self {
 			source,
@@ -51,30 +59,37 @@ where
 			retries,
 			caught_error,
 			last_subscription,
+			finished,
+			failed: false,
 		}
 	}
 
-	#[inline]
-	fn reset(&mut self) {
-		if let Some(mut last_subscription) = self.last_subscription.lock_ignore_poison().take()
+	fn unsubscribe_last(&mut self) {
+		let last_subscription = self.last_subscription.lock_ignore_poison().take();
+		if let Some(mut last_subscription) = last_subscription
 			&& !last_subscription.is_closed()
 		{
 			last_subscription.unsubscribe();
 		};
+	}
+
+	#[inline]
+	fn reset(&mut self) {
+		self.unsubscribe_last();
 
 		self.finished_with = None;
 		self.caught_error.lock_ignore_poison().take();
 	}
 
 	fn finish(&mut self) {
+		self.finished.store(true, Ordering::Relaxed);
+
+		// If the destination closes because of this, so does the outer subscription
 		match self.finished_with.take() {
 			Some(ObserverTerminalNotification::Error(error)) => self.destination.error(error),
 			Some(ObserverTerminalNotification::Complete) => self.destination.complete(),
-			None => {}
+			None => self.destination.unsubscribe(),
 		}
-
-		self.outer_subscription.unsubscribe();
-		self.destination.unsubscribe();
 	}
 }
 
@@ -85,6 +100,10 @@ where
 {
 	#[inline]
 	fn next(&mut self, next: Self::In) {
+		if self.failed {
+			return;
+		}
+
 		self.destination.next(next);
 
 		if self.destination.is_closed() {
@@ -92,7 +111,12 @@ where
 		}
 	}
 
-	fn error(&mut self, error: Self::InError) {
+	fn error(&mut self, mut error: Self::InError) {
+		if self.failed {
+			return;
+		}
+		self.failed = true;
+
 		// If the source is "stolen", it's still owned by the observables
 		// subscribe method. It will check the caught error and retry there.
 		if self.source.lock_ignore_poison().is_none() {
@@ -113,6 +137,7 @@ where
 				self.outer_subscription.clone(),
 				self.last_subscription.clone(),
 				self.caught_error.clone(),
+				self.finished.clone(),
 			));
 
 			self.source.lock_ignore_poison().replace(stolen_source);
@@ -123,7 +148,9 @@ where
 					.replace(SharedSubscription::new(next_subscription));
 			}
 
-			if self.caught_error.lock_ignore_poison().is_some() {
+			let caught_error = self.caught_error.lock_ignore_poison().take();
+			if let Some(next_error) = caught_error {
+				error = next_error;
 				continue;
 			} else {
 				self.outer_subscription.add(self.last_subscription.clone());
@@ -134,12 +161,18 @@ where
 		self.finished_with = Some(ObserverTerminalNotification::Error(error));
 
 		if self.retries > self.max_retries {
+			self.finished.store(true, Ordering::Relaxed);
+			self.unsubscribe_last();
 			self.finish();
 		}
 	}
 
 	#[inline]
 	fn complete(&mut self) {
+		if self.failed {
+			return;
+		}
+
 		self.finished_with = Some(ObserverTerminalNotification::Complete);
 		self.finish();
 	}
@@ -156,7 +189,7 @@ where
 	}
 
 	fn unsubscribe(&mut self) {
-		if self.caught_error.lock_ignore_poison().is_none() && self.finished_with.is_none() {
+		if !self.failed && self.finished_with.is_none() && !self.finished.load(Ordering::Relaxed) {
 			self.finish();
 		}
 	}
-- 
2.43.0


From fdbdd300045304bd1496bf7cf4758a6ce955810e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:43 +0000
Subject: [PATCH 29/47] fix: catch ignores its failed source and releases the
 recovery when its destination closes

---
 .../src/catch_subscriber.rs                   | 34 ++++++++++---------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/crates/rx_core_operator_catch/src/catch_subscriber.rs b/crates/rx_core_operator_catch/src/catch_subscriber.rs
index e15f27f..bbb5690 100644
--- a/crates/rx_core_operator_catch/src/catch_subscriber.rs
+++ b/crates/rx_core_operator_catch/src/catch_subscriber.rs
@@ -3,8 +3,8 @@ use std::sync::{Arc, Mutex};
 
 use rx_core_common::{
 	LockWithPoisonBehavior, Observable, PhantomInvariant, RxObserver, SharedSubscriber,
-	SharedSubscription, Signal, Subscriber, SubscriptionData, SubscriptionLike, Teardown,
-	TeardownCollection,
+	SharedSubscription, Signal, Subscriber, SubscriptionLike, Teardown, TeardownCollection,
+	TeardownCollectionExtension,
 };
 use rx_core_macro_subscriber_derive::RxSubscriber;
 use rx_core_subscriber_higher_order::{HigherOrderInnerSubscriber, HigherOrderSubscriberState};
@@ -24,7 +24,7 @@ where
 	shared_destination: SharedSubscriber<Destination>,
 	state: Arc<Mutex<HigherOrderSubscriberState<()>>>,
 	error_mapper: Option<ErrorMapper>,
-	inner_subscription: Option<SubscriptionData>,
+	/// Also owns the subscription of the recovery
 	outer_teardown: SharedSubscription,
 	_phantom_data: PhantomInvariant<(In, InError)>,
 }
@@ -39,11 +39,16 @@ where
 	Destination: 'static + Subscriber<In = In, InError = InnerObservable::OutError>,
 {
 	pub fn new(destination: Destination, error_mapper: ErrorMapper) -> Self {
+		let mut shared_destination = SharedSubscriber::new(destination);
+		let outer_teardown = SharedSubscription::default();
+
+		// If the destination closes by itself, there's nothing to recover for
+		shared_destination.add(outer_teardown.clone());
+
 		Self {
-			shared_destination: SharedSubscriber::new(destination),
+			shared_destination,
 			error_mapper: Some(error_mapper),
-			inner_subscription: None,
-			outer_teardown: SharedSubscription::default(),
+			outer_teardown,
 			state: Arc::new(Mutex::new(HigherOrderSubscriberState::default())),
 			_phantom_data: PhantomData,
 		}
@@ -61,6 +66,11 @@ where
 {
 	#[inline]
 	fn next(&mut self, next: Self::In) {
+		// Once recovered from its error, upstream is of no interest
+		if self.error_mapper.is_none() {
+			return;
+		}
+
 		self.shared_destination.next(next);
 
 		if self.shared_destination.is_closed() {
@@ -78,10 +88,6 @@ where
 			state_lock.non_unsubscribed_subscriptions += 1;
 			drop(state_lock);
 
-			if let Some(mut inner_subscription) = self.inner_subscription.take() {
-				inner_subscription.unsubscribe();
-			}
-
 			let state_on_unsubscribe_clone = self.state.clone();
 			let mut outer_teardown_on_unsubscribe_clone = self.outer_teardown.clone();
 			let mut shared_destination_on_unsubscribe_clone = self.shared_destination.clone();
@@ -114,8 +120,7 @@ where
 			let subscription = next_observable.subscribe(higher_order_subscriber);
 
 			if !subscription.is_closed() {
-				self.inner_subscription =
-					Some(SubscriptionData::new_with_teardown(subscription.into()));
+				self.outer_teardown.add(subscription);
 			}
 
 			if self.shared_destination.is_closed() {
@@ -127,6 +132,7 @@ where
 	#[inline]
 	fn complete(&mut self) {
 		if !self.is_closed()
+			&& self.error_mapper.is_some()
 			&& self
 				.state
 				.lock_ignore_poison()
@@ -172,10 +178,6 @@ where
 
 	fn unsubscribe(&mut self) {
 		if !self.is_closed() {
-			if let Some(subscription_handle) = &mut self.inner_subscription.take() {
-				subscription_handle.unsubscribe();
-			};
-
 			self.outer_teardown.unsubscribe();
 			self.shared_destination.unsubscribe();
 		}
-- 
2.43.0


From 09caec50e09248c6529a1fe752939438580f7d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:38 +0000
Subject: [PATCH 30/47] fix: a subscription entity that is gone by the time of
 a subscribe retry is not subscribed

---
 crates/rx_bevy_common/src/observable/command_subscribe.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/rx_bevy_common/src/observable/command_subscribe.rs b/crates/rx_bevy_common/src/observable/command_subscribe.rs
index f60bc28..b5ef770 100644
--- a/crates/rx_bevy_common/src/observable/command_subscribe.rs
+++ b/crates/rx_bevy_common/src/observable/command_subscribe.rs
@@ -80,6 +80,13 @@ where
 	fn apply(self, world: &mut bevy_ecs::world::World) -> Result<(), BevyError> {
 		let observable_entity = self.event.observable_entity;
 
+		// The subscription entity may already be gone by the time of a retry,
+		// there is nothing to attach the subscription to. Dropping the event
+		// unsubscribes the destination.
+		if world.get_entity(self.event.subscription_entity).is_err() {
+			return Ok(());
+		}
+
 		let has_matching_subscribe_observer = world
 			.get::<ErasedSubscribeObservers<Out, OutError>>(observable_entity)
 			.is_some();
-- 
2.43.0


From 5cf8b36fd0ddd4a93d3d0dcd0338c26a6eb55dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:52 +0000
Subject: [PATCH 31/47] fix: replacing an observable or subject component keeps
 a single set of satellites

---
 crates/rx_bevy_common/src/observable/observable_component.rs | 4 ++--
 crates/rx_bevy_common/src/subject/subject_component.rs       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/rx_bevy_common/src/observable/observable_component.rs b/crates/rx_bevy_common/src/observable/observable_component.rs
index 3ef611c..5abd60c 100644
--- a/crates/rx_bevy_common/src/observable/observable_component.rs
+++ b/crates/rx_bevy_common/src/observable/observable_component.rs
@@ -13,7 +13,7 @@ use crate::{
 #[derive(Component, RxObservable)]
 #[rx_out(O::Out)]
 #[rx_out_error(O::OutError)]
-#[component(on_insert=observable_on_insert::<O>, on_remove=observable_on_remove::<O>)]
+#[component(on_add=observable_on_add::<O>, on_remove=observable_on_remove::<O>)]
 #[require(ObservableSubscriptions::<O>, ObservableOutputs::<O::Out, O::OutError>)]
 pub struct ObservableComponent<O>
 where
@@ -55,7 +55,7 @@ where
 	}
 }
 
-fn observable_on_insert<O>(mut deferred_world: DeferredWorld, hook_context: HookContext)
+fn observable_on_add<O>(mut deferred_world: DeferredWorld, hook_context: HookContext)
 where
 	O: 'static + Observable + Send + Sync,
 {
diff --git a/crates/rx_bevy_common/src/subject/subject_component.rs b/crates/rx_bevy_common/src/subject/subject_component.rs
index ab779e6..6480fd5 100644
--- a/crates/rx_bevy_common/src/subject/subject_component.rs
+++ b/crates/rx_bevy_common/src/subject/subject_component.rs
@@ -42,7 +42,7 @@ use crate::{
 #[rx_out(Subject::Out)]
 #[rx_out_error(Subject::OutError)]
 #[rx_delegate_subscription_like_to_destination]
-#[component(on_insert=subject_on_insert::<Subject>, on_remove=subject_on_remove::<Subject>)]
+#[component(on_add=subject_on_add::<Subject>, on_remove=subject_on_remove::<Subject>)]
 #[require(ObservableSubscriptions::<Subject>, ObservableOutputs::<Subject::Out, Subject::OutError>)]
 pub struct SubjectComponent<Subject>
 where
@@ -110,7 +110,7 @@ where
 	}
 }
 
-fn subject_on_insert<Subject>(mut deferred_world: DeferredWorld, hook_context: HookContext)
+fn subject_on_add<Subject>(mut deferred_world: DeferredWorld, hook_context: HookContext)
 where
 	Subject: 'static + SubjectLike + Send + Sync,
 	Subject::In: Clone,
-- 
2.43.0


From aaf480e0af70248087e6ab53fa9f28fc6901c88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:50 +0000
Subject: [PATCH 32/47] fix: a message observable's subscription unsubscribed
 from inside its own notification stops

---
 .../src/message_subscription.rs                          | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/crates/rx_bevy_observable_message/src/message_subscription.rs b/crates/rx_bevy_observable_message/src/message_subscription.rs
index 6ad04a8..af42505 100644
--- a/crates/rx_bevy_observable_message/src/message_subscription.rs
+++ b/crates/rx_bevy_observable_message/src/message_subscription.rs
@@ -28,22 +28,21 @@ where
 			let cancellation_id = scheduler_lock.generate_cancellation_id();
 
 			let mut message_cursor = MessageCursor::<Destination::In>::default();
-			let shared_destination_clone = shared_destination.clone();
+			let mut shared_destination_clone = shared_destination.clone();
 			scheduler_lock.schedule_continuous_work(
 				move |_, context| {
 					let events = context
 						.deferred_world
 						.resource::<Messages<Destination::In>>();
 
-					let mut destination = shared_destination_clone.lock();
-					if destination.is_closed() {
+					if shared_destination_clone.is_closed() {
 						return WorkResult::Done;
 					}
 
 					for event in message_cursor.read(events).cloned() {
-						destination.next(event);
+						shared_destination_clone.next(event);
 
-						if destination.is_closed() {
+						if shared_destination_clone.is_closed() {
 							return WorkResult::Done;
 						}
 					}
-- 
2.43.0


From 5f9ee1d015b72ebf7a447dc61782f75f08dd380e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:50 +0000
Subject: [PATCH 33/47] fix: observing the events of an entity despawned before
 the observer could be attached completes instead of panicking

---
 .../rx_bevy_observable_event/src/event_subscription.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/rx_bevy_observable_event/src/event_subscription.rs b/crates/rx_bevy_observable_event/src/event_subscription.rs
index d8c3389..4fe6951 100644
--- a/crates/rx_bevy_observable_event/src/event_subscription.rs
+++ b/crates/rx_bevy_observable_event/src/event_subscription.rs
@@ -46,6 +46,16 @@ where
 			let scheduler_schedule_clone = scheduler.clone();
 			scheduler_lock.schedule_immediate_work(
 				move |_, context| {
+					// It could have been despawned since the subscription was made
+					if context
+						.deferred_world
+						.get_entity(observed_event_source_entity)
+						.is_err()
+					{
+						shared_destination_despawn_clone.complete();
+						return;
+					}
+
 					let mut commands = context.deferred_world.commands();
 					let observer_satellite_entity = commands.spawn((
 						Name::new(format!("Event Observer of {}", ShortName::of::<Self>())),
-- 
2.43.0


From 6ddfd61f06a1596bdcda4663e29e2550c8116abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:57 +0000
Subject: [PATCH 34/47] fix: keep connections of connectable observables
 consistent when subscribers act while connecting

A last subscriber leaving while the source is being subscribed now
disconnects it, a reset connector forgets that the previous one has
completed or errored, subscribing, connecting and disconnecting from a
callback no longer deadlocks or returns the ending connection, and
subscribers are counted before the connector can notify them.
---
 .../src/connectable_observable.rs             | 83 +++++++++-------
 .../src/connection_handle.rs                  | 97 +++++++++++++++++--
 .../src/internal/connection.rs                | 21 +---
 .../src/internal/connection_subscriber.rs     | 30 +++++-
 .../src/internal/connector_state.rs           | 73 ++++++++------
 .../src/internal/mod.rs                       |  2 +
 .../src/internal/pending_connections.rs       | 72 ++++++++++++++
 7 files changed, 283 insertions(+), 95 deletions(-)
 create mode 100644 crates/rx_core_observable_connectable/src/internal/pending_connections.rs

diff --git a/crates/rx_core_observable_connectable/src/connectable_observable.rs b/crates/rx_core_observable_connectable/src/connectable_observable.rs
index 84ca99e..0c18bac 100644
--- a/crates/rx_core_observable_connectable/src/connectable_observable.rs
+++ b/crates/rx_core_observable_connectable/src/connectable_observable.rs
@@ -82,40 +82,39 @@ where
 	where
 		Destination: 'static + UpgradeableObserver<In = Self::Out, InError = Self::OutError>,
 	{
-		let mut subscription = {
-			let mut connector = self.connector.lock_ignore_poison();
-			connector.get_connector().subscribe(observer.upgrade())
-		};
-
-		if !subscription.is_closed() {
-			self.connection_state
-				.lock_ignore_poison()
-				.increment_subscriber_count();
-
-			let connection_state_clone = self.connection_state.clone();
-			let connection_clone = self.connection.clone();
-			subscription.add_fn(move || {
-				let connection_to_disconnect = {
-					let mut connection_state = connection_state_clone.lock_ignore_poison();
-
-					// If, and only if when `disconnect_when_ref_count_zero` is set,
-					// and the ref count dropped to zero this function returns true
-					let should_disconnect = connection_state.decrement_subscriber_count();
-
-					if should_disconnect {
-						connection_clone.lock_ignore_poison().take_connection()
-					} else {
-						None
-					}
-				};
-
-				if let Some(mut connection) = connection_to_disconnect
-					&& !connection.is_closed()
-				{
-					connection.unsubscribe();
-				};
-			});
-		}
+		let mut connector = self.connector.lock_ignore_poison().get_connector();
+
+		// Counted before subscribing, the connector could already notify it, and the
+		// others leaving meanwhile must not disconnect it.
+		self.connection_state
+			.lock_ignore_poison()
+			.increment_subscriber_count();
+
+		let mut subscription = connector.subscribe(observer.upgrade());
+
+		let connection_state_clone = self.connection_state.clone();
+		let connection_clone = self.connection.clone();
+		subscription.add_fn(move || {
+			let connection_to_disconnect = {
+				let mut connection_state = connection_state_clone.lock_ignore_poison();
+
+				// If, and only if when `disconnect_when_ref_count_zero` is set,
+				// and the ref count dropped to zero this function returns true
+				let should_disconnect = connection_state.decrement_subscriber_count();
+
+				if should_disconnect {
+					connection_clone.lock_ignore_poison().take_connection()
+				} else {
+					None
+				}
+			};
+
+			if let Some(mut connection) = connection_to_disconnect
+				&& !connection.is_closed()
+			{
+				connection.unsubscribe();
+			};
+		});
 
 		subscription
 	}
@@ -131,12 +130,23 @@ where
 	type ConnectionSubscription = ConnectionSubscription<Source, ConnectorProvider::Provided>;
 
 	fn connect(&mut self) -> ConnectionHandle<Self::ConnectionSubscription> {
-		self.connector.lock_ignore_poison().connect()
+		let (connection, pending) = self.connector.lock_ignore_poison().prepare_connection();
+		pending.establish();
+		connection
 	}
 
 	#[inline]
 	fn disconnect(&mut self) -> bool {
-		self.connector.lock_ignore_poison().disconnect()
+		let connection = self.connection.lock_ignore_poison().take_connection();
+
+		if let Some(mut connection) = connection
+			&& !connection.is_closed()
+		{
+			connection.unsubscribe();
+			return true;
+		}
+
+		false
 	}
 
 	#[inline]
@@ -146,6 +156,7 @@ where
 
 	#[inline]
 	fn reset(&mut self) {
+		self.disconnect();
 		self.connector.lock_ignore_poison().reset();
 	}
 }
diff --git a/crates/rx_core_observable_connectable/src/connection_handle.rs b/crates/rx_core_observable_connectable/src/connection_handle.rs
index 2a3c142..7d07ee7 100644
--- a/crates/rx_core_observable_connectable/src/connection_handle.rs
+++ b/crates/rx_core_observable_connectable/src/connection_handle.rs
@@ -1,22 +1,33 @@
-use std::sync::{Arc, Mutex};
+use std::sync::{
+	Arc, Mutex,
+	atomic::{AtomicBool, Ordering},
+};
 
 use derive_where::derive_where;
-use rx_core_common::SubscriptionWithTeardown;
+use rx_core_common::{
+	LockWithPoisonBehavior, SubscriptionLike, SubscriptionWithTeardown, Teardown,
+	TeardownCollection,
+};
 use rx_core_macro_subscription_derive::RxSubscription;
 
 /// Subscription that represents an active connection for a
 /// [ConnectableObservable][crate::ConnectableObservable].
 #[derive_where(Clone)]
 #[derive(RxSubscription)]
-#[rx_delegate_subscription_like_to_destination]
-#[rx_delegate_teardown_collection]
 #[rx_skip_unsubscribe_on_drop_impl]
 pub struct ConnectionHandle<Subscription>
 where
 	Subscription: SubscriptionWithTeardown,
 {
-	#[destination]
-	handle: Arc<Mutex<Subscription>>,
+	handle: Arc<Mutex<ConnectionHandleState<Subscription>>>,
+	closed: Arc<AtomicBool>,
+}
+
+struct ConnectionHandleState<Subscription> {
+	/// Not known yet while the source is still being subscribed to.
+	subscription: Option<Subscription>,
+	/// Teardowns added while the source is still being subscribed to.
+	teardowns: Vec<Teardown>,
 }
 
 impl<Subscription> ConnectionHandle<Subscription>
@@ -24,8 +35,80 @@ where
 	Subscription: SubscriptionWithTeardown,
 {
 	pub fn new(subscription: Subscription) -> Self {
+		let handle = Self::new_pending(Arc::new(AtomicBool::new(false)));
+		handle.establish(subscription);
+		handle
+	}
+
+	/// A handle for a connection whose source is yet to be subscribed.
+	pub(crate) fn new_pending(closed: Arc<AtomicBool>) -> Self {
 		Self {
-			handle: Arc::new(Mutex::new(subscription)),
+			handle: Arc::new(Mutex::new(ConnectionHandleState {
+				subscription: None,
+				teardowns: Vec::new(),
+			})),
+			closed,
+		}
+	}
+
+	/// The source has been subscribed. In case the connection was unsubscribed
+	/// meanwhile, the subscription will be too.
+	pub(crate) fn establish(&self, mut subscription: Subscription) {
+		let mut state = self.handle.lock_ignore_poison();
+		for teardown in state.teardowns.drain(..) {
+			subscription.add_teardown(teardown);
+		}
+
+		if self.closed.load(Ordering::Relaxed) {
+			drop(state);
+			subscription.unsubscribe();
+		} else {
+			state.subscription = Some(subscription);
+		}
+	}
+}
+
+impl<Subscription> SubscriptionLike for ConnectionHandle<Subscription>
+where
+	Subscription: SubscriptionWithTeardown,
+{
+	fn is_closed(&self) -> bool {
+		self.closed.load(Ordering::Relaxed)
+			|| self
+				.handle
+				.lock_ignore_poison()
+				.subscription
+				.as_ref()
+				.is_some_and(|subscription| subscription.is_closed())
+	}
+
+	fn unsubscribe(&mut self) {
+		// Must not be locked while unsubscribing, teardowns could use it
+		let subscription = {
+			let mut state = self.handle.lock_ignore_poison();
+			self.closed.store(true, Ordering::Relaxed);
+			state.subscription.take()
+		};
+
+		if let Some(mut subscription) = subscription {
+			subscription.unsubscribe();
+		}
+	}
+}
+
+impl<Subscription> TeardownCollection for ConnectionHandle<Subscription>
+where
+	Subscription: SubscriptionWithTeardown,
+{
+	fn add_teardown(&mut self, teardown: Teardown) {
+		let mut state = self.handle.lock_ignore_poison();
+		if let Some(subscription) = state.subscription.as_mut() {
+			subscription.add_teardown(teardown);
+		} else if self.closed.load(Ordering::Relaxed) {
+			drop(state);
+			teardown.execute();
+		} else {
+			state.teardowns.push(teardown);
 		}
 	}
 }
diff --git a/crates/rx_core_observable_connectable/src/internal/connection.rs b/crates/rx_core_observable_connectable/src/internal/connection.rs
index 18bfc65..d5570a8 100644
--- a/crates/rx_core_observable_connectable/src/internal/connection.rs
+++ b/crates/rx_core_observable_connectable/src/internal/connection.rs
@@ -15,17 +15,6 @@ impl<Subscription> Connection<Subscription>
 where
 	Subscription: SubscriptionWithTeardown,
 {
-	pub(crate) fn disconnect(&mut self) -> bool {
-		if let Some(mut connection) = self.connection.take()
-			&& !connection.is_closed()
-		{
-			connection.unsubscribe();
-			return true;
-		}
-
-		false
-	}
-
 	pub(crate) fn is_connected(&self) -> bool {
 		if let Some(connection) = self.connection.as_ref() {
 			!connection.is_closed()
@@ -34,14 +23,8 @@ where
 		}
 	}
 
-	pub(crate) fn register_connection(
-		&mut self,
-		connection: Subscription,
-	) -> ConnectionHandle<Subscription> {
-		self.disconnect();
-		let handle = ConnectionHandle::new(connection);
-		self.connection = Some(handle.clone());
-		handle
+	pub(crate) fn register_connection(&mut self, connection: ConnectionHandle<Subscription>) {
+		self.connection = Some(connection);
 	}
 
 	pub(crate) fn take_connection(&mut self) -> Option<ConnectionHandle<Subscription>> {
diff --git a/crates/rx_core_observable_connectable/src/internal/connection_subscriber.rs b/crates/rx_core_observable_connectable/src/internal/connection_subscriber.rs
index 8e02f5c..cf7e9e1 100644
--- a/crates/rx_core_observable_connectable/src/internal/connection_subscriber.rs
+++ b/crates/rx_core_observable_connectable/src/internal/connection_subscriber.rs
@@ -1,3 +1,8 @@
+use std::sync::{
+	Arc,
+	atomic::{AtomicBool, Ordering},
+};
+
 use rx_core_common::{
 	RxObserver, SubjectLike, SubscriptionData, SubscriptionLike, Teardown, TeardownCollection,
 };
@@ -6,6 +11,7 @@ use rx_core_macro_subscriber_derive::RxSubscriber;
 #[derive(RxSubscriber)]
 #[rx_in(Connector::In)]
 #[rx_in_error(Connector::InError)]
+#[rx_skip_unsubscribe_on_drop_impl]
 pub struct ConnectionSubscriber<Connector>
 where
 	Connector: 'static + SubjectLike,
@@ -14,6 +20,9 @@ where
 	on_error: Option<Box<dyn FnOnce() + Send + Sync>>,
 	on_complete: Option<Box<dyn FnOnce() + Send + Sync>>,
 	on_unsubscribe: Option<Box<dyn FnOnce() + Send + Sync>>,
+	/// Set when the connection is closed, even if its subscription is not
+	/// established yet.
+	connection_closed: Arc<AtomicBool>,
 	teardown: SubscriptionData,
 }
 
@@ -23,6 +32,7 @@ where
 {
 	pub(crate) fn new(
 		connector: Connector,
+		connection_closed: Arc<AtomicBool>,
 		on_complete: Box<dyn FnOnce() + Send + Sync>,
 		on_error: Box<dyn FnOnce() + Send + Sync>,
 		on_unsubscribe: Box<dyn FnOnce() + Send + Sync>,
@@ -32,6 +42,7 @@ where
 			on_complete: Some(on_complete),
 			on_error: Some(on_error),
 			on_unsubscribe: Some(on_unsubscribe),
+			connection_closed,
 			teardown: SubscriptionData::default(),
 		}
 	}
@@ -89,15 +100,19 @@ where
 {
 	#[inline]
 	fn is_closed(&self) -> bool {
-		self.teardown.is_closed() || self.connector.is_closed()
+		self.teardown.is_closed()
+			|| self.connector.is_closed()
+			|| self.connection_closed.load(Ordering::Relaxed)
 	}
 
 	#[inline]
 	fn unsubscribe(&mut self) {
-		if !self.is_closed() {
+		if !self.teardown.is_closed() {
 			self.on_complete.take(); // In case wasn't completed
 			self.on_error.take(); // In case didn't error
-			if let Some(on_unsubscribe) = self.on_unsubscribe.take() {
+			if let Some(on_unsubscribe) = self.on_unsubscribe.take()
+				&& !self.connector.is_closed()
+			{
 				on_unsubscribe()
 			}
 			self.teardown.unsubscribe();
@@ -108,3 +123,12 @@ where
 		}
 	}
 }
+
+impl<Connector> Drop for ConnectionSubscriber<Connector>
+where
+	Connector: 'static + SubjectLike,
+{
+	fn drop(&mut self) {
+		self.unsubscribe();
+	}
+}
diff --git a/crates/rx_core_observable_connectable/src/internal/connector_state.rs b/crates/rx_core_observable_connectable/src/internal/connector_state.rs
index b72b9cd..7f65f38 100644
--- a/crates/rx_core_observable_connectable/src/internal/connector_state.rs
+++ b/crates/rx_core_observable_connectable/src/internal/connector_state.rs
@@ -1,4 +1,7 @@
-use std::sync::{Arc, Mutex};
+use std::sync::{
+	Arc, Mutex,
+	atomic::{AtomicBool, Ordering},
+};
 
 use rx_core_common::{
 	LockWithPoisonBehavior, Observable, ObservableOutput, Provider, SubjectLike, TeardownCollection,
@@ -6,7 +9,7 @@ use rx_core_common::{
 use rx_core_macro_observable_derive::RxObservable;
 
 use crate::{
-	internal::{Connection, ConnectionState, ConnectionSubscriber},
+	internal::{Connection, ConnectionState, ConnectionSubscriber, PendingConnections},
 	observable::{ConnectableOptions, ConnectionHandle, ConnectionSubscription},
 };
 
@@ -22,7 +25,7 @@ where
 {
 	/// Upon connection, the connector subject will subscribe to this source
 	/// observable
-	source: Source,
+	pending: PendingConnections<Source, ConnectorProvider::Provided>,
 
 	/// Upon subscription this connector subject is what will be used as the
 	/// source
@@ -51,7 +54,7 @@ where
 		options: ConnectableOptions<ConnectorProvider>,
 	) -> Self {
 		Self {
-			source,
+			pending: PendingConnections::new(source),
 			connector: Arc::new(Mutex::new(None)),
 			connection,
 			connection_state,
@@ -66,9 +69,10 @@ where
 			.clone()
 	}
 
-	pub(crate) fn create_connection(
+	fn create_connection_subscriber(
 		&mut self,
-	) -> ConnectionSubscription<Source, ConnectorProvider::Provided> {
+		closed: Arc<AtomicBool>,
+	) -> ConnectionSubscriber<ConnectorProvider::Provided> {
 		let connector = self.get_connector().clone();
 
 		let reset_connector_on_disconnect = self.options.reset_connector_on_disconnect;
@@ -80,10 +84,18 @@ where
 		let reset_on_complete = self.options.reset_connector_on_complete;
 		let reset_on_error = self.options.reset_connector_on_error;
 
-		self.source.subscribe(ConnectionSubscriber::new(
-			connector.clone(),
+		let closed_on_complete = closed.clone();
+		let closed_on_error = closed.clone();
+
+		self.connection_state.lock_ignore_poison().reset();
+
+		ConnectionSubscriber::new(
+			connector,
+			closed,
 			Box::new(move || {
 				let mut connection_state = connection_on_complete.lock_ignore_poison();
+				// Subscribers can already connect again when they're notified
+				closed_on_complete.store(true, Ordering::Relaxed);
 
 				if reset_on_complete {
 					connector_on_complete.lock_ignore_poison().take();
@@ -93,6 +105,8 @@ where
 			}),
 			Box::new(move || {
 				let mut connection_state = connection_on_error.lock_ignore_poison();
+				// Subscribers can already connect again when they're notified
+				closed_on_error.store(true, Ordering::Relaxed);
 				if reset_on_error {
 					connector_on_error.lock_ignore_poison().take();
 					connection_state.reset();
@@ -107,36 +121,35 @@ where
 					// Attempting to unsubscribe the connector here will lead to a deadlock!
 				}
 			}),
-		))
-	}
-
-	pub(crate) fn register_connection(
-		&mut self,
-		connection: ConnectionSubscription<Source, ConnectorProvider::Provided>,
-	) -> ConnectionHandle<ConnectionSubscription<Source, ConnectorProvider::Provided>> {
-		self.connection
-			.lock_clear_poison()
-			.register_connection(connection)
+		)
 	}
 
-	pub(crate) fn connect(
+	/// Returns the active connection if there is one, otherwise registers a new
+	/// one. It has to be established once this state is no longer locked, as
+	/// both the source and the subscribers could use the connectable.
+	pub(crate) fn prepare_connection(
 		&mut self,
-	) -> ConnectionHandle<ConnectionSubscription<Source, ConnectorProvider::Provided>> {
+	) -> (
+		ConnectionHandle<ConnectionSubscription<Source, ConnectorProvider::Provided>>,
+		PendingConnections<Source, ConnectorProvider::Provided>,
+	) {
 		let active_connection = self.connection.lock_ignore_poison().get_active_connection();
 
-		active_connection.unwrap_or_else(move || {
-			let new_connection = self.create_connection();
-			self.register_connection(new_connection)
-		})
-	}
-
-	#[inline]
-	pub(crate) fn disconnect(&mut self) -> bool {
-		self.connection.lock_ignore_poison().disconnect()
+		let connection = active_connection.unwrap_or_else(|| {
+			let closed = Arc::new(AtomicBool::new(false));
+			let subscriber = self.create_connection_subscriber(closed.clone());
+			let connection = ConnectionHandle::new_pending(closed);
+			self.connection
+				.lock_clear_poison()
+				.register_connection(connection.clone());
+			self.pending.push(connection.clone(), subscriber);
+			connection
+		});
+
+		(connection, self.pending.clone())
 	}
 
 	pub(crate) fn reset(&mut self) {
-		self.disconnect();
 		self.connector.lock_ignore_poison().take();
 	}
 }
diff --git a/crates/rx_core_observable_connectable/src/internal/mod.rs b/crates/rx_core_observable_connectable/src/internal/mod.rs
index 96e446e..806e9dd 100644
--- a/crates/rx_core_observable_connectable/src/internal/mod.rs
+++ b/crates/rx_core_observable_connectable/src/internal/mod.rs
@@ -2,8 +2,10 @@ mod connection;
 mod connection_state;
 mod connection_subscriber;
 mod connector_state;
+mod pending_connections;
 
 pub(crate) use connection::*;
 pub(crate) use connection_state::*;
 pub(crate) use connection_subscriber::*;
 pub(crate) use connector_state::*;
+pub(crate) use pending_connections::*;
diff --git a/crates/rx_core_observable_connectable/src/internal/pending_connections.rs b/crates/rx_core_observable_connectable/src/internal/pending_connections.rs
new file mode 100644
index 0000000..73e5b6b
--- /dev/null
+++ b/crates/rx_core_observable_connectable/src/internal/pending_connections.rs
@@ -0,0 +1,72 @@
+use std::{
+	collections::VecDeque,
+	sync::{Arc, Mutex, TryLockError},
+};
+
+use derive_where::derive_where;
+use rx_core_common::{LockWithPoisonBehavior, Observable, SubjectLike, TeardownCollection};
+
+use crate::{internal::ConnectionSubscriber, observable::ConnectionHandle};
+
+type PendingConnection<Source, Connector> = (
+	ConnectionHandle<<Source as Observable>::Subscription<ConnectionSubscriber<Connector>>>,
+	ConnectionSubscriber<Connector>,
+);
+
+/// The source, and the connections that are yet to be established by
+/// subscribing to it.
+#[derive_where(Clone)]
+pub(crate) struct PendingConnections<Source, Connector>
+where
+	Source: Observable,
+	Connector: 'static + SubjectLike<In = Source::Out, InError = Source::OutError>,
+	Source::Subscription<ConnectionSubscriber<Connector>>: 'static + TeardownCollection,
+{
+	source: Arc<Mutex<Source>>,
+	queue: Arc<Mutex<VecDeque<PendingConnection<Source, Connector>>>>,
+}
+
+impl<Source, Connector> PendingConnections<Source, Connector>
+where
+	Source: Observable,
+	Connector: 'static + SubjectLike<In = Source::Out, InError = Source::OutError>,
+	Source::Subscription<ConnectionSubscriber<Connector>>: 'static + TeardownCollection,
+{
+	pub(crate) fn new(source: Source) -> Self {
+		Self {
+			source: Arc::new(Mutex::new(source)),
+			queue: Arc::new(Mutex::new(VecDeque::new())),
+		}
+	}
+
+	#[allow(clippy::type_complexity)]
+	pub(crate) fn push(
+		&self,
+		connection: ConnectionHandle<Source::Subscription<ConnectionSubscriber<Connector>>>,
+		subscriber: ConnectionSubscriber<Connector>,
+	) {
+		self.queue
+			.lock_ignore_poison()
+			.push_back((connection, subscriber));
+	}
+
+	/// Establishes the pending connections. When the source is just being
+	/// subscribed to, that call will establish them once it's done.
+	pub(crate) fn establish(&self) {
+		while !self.queue.lock_ignore_poison().is_empty() {
+			let mut source = match self.source.try_lock() {
+				Ok(source) => source,
+				Err(TryLockError::Poisoned(poison_error)) => poison_error.into_inner(),
+				Err(TryLockError::WouldBlock) => return,
+			};
+
+			loop {
+				let pending = self.queue.lock_ignore_poison().pop_front();
+				let Some((connection, subscriber)) = pending else {
+					break;
+				};
+				connection.establish(source.subscribe(subscriber));
+			}
+		}
+	}
+}
-- 
2.43.0


From cc9e2fda26282015416947b8f8a15a7933e6e46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:57 +0000
Subject: [PATCH 35/47] fix: clones of a share report the shared connection,
 and it does not connect for a subscriber that is already gone

---
 .../src/share_observable.rs                   | 48 +++++--------------
 1 file changed, 12 insertions(+), 36 deletions(-)

diff --git a/crates/rx_core_operator_share/src/share_observable.rs b/crates/rx_core_operator_share/src/share_observable.rs
index 96730b6..db344f8 100644
--- a/crates/rx_core_operator_share/src/share_observable.rs
+++ b/crates/rx_core_operator_share/src/share_observable.rs
@@ -14,21 +14,11 @@ where
 	Source: Observable,
 	Source::Out: Clone,
 	Source::OutError: Clone,
-		ConnectorProvider: 'static + Provider,
+	ConnectorProvider: 'static + Provider,
 	ConnectorProvider::Provided: SubjectLike<In = Source::Out, InError = Source::OutError> + Clone,
 {
-	connectable: ConnectableObservable<
-		Source,
-		ConnectorProvider,
-	>,
-	connection: Option<
-		ConnectionHandle<
-			<ConnectableObservable<
-				Source,
-			ConnectorProvider,
-			> as Connectable>::ConnectionSubscription,
-		>,
-	>,
+	connectable: ConnectableObservable<Source, ConnectorProvider>,
+	disconnect_when_ref_count_zero: bool,
 }
 
 impl<Source, ConnectorProvider> ShareObservable<Source, ConnectorProvider>
@@ -41,16 +31,13 @@ where
 {
 	pub fn new(source: Source, options: ConnectableOptions<ConnectorProvider>) -> Self {
 		Self {
+			disconnect_when_ref_count_zero: options.disconnect_when_ref_count_zero,
 			connectable: ConnectableObservable::new(source, options),
-			connection: None,
 		}
 	}
 
 	pub fn is_connected(&self) -> bool {
-		self.connection
-			.as_ref()
-			.map(|connection| !connection.is_closed())
-			.unwrap_or(false)
+		self.connectable.is_connected()
 	}
 
 	pub fn connect(
@@ -58,26 +45,11 @@ where
 	) -> ConnectionHandle<
 		<ConnectableObservable<Source, ConnectorProvider> as Connectable>::ConnectionSubscription,
 	> {
-		if let Some(connection) = self.connection.as_ref()
-			&& !connection.is_closed()
-		{
-			return connection.clone();
-		}
-
-		let connection = self.connectable.connect();
-		self.connection = Some(connection.clone());
-		connection
+		self.connectable.connect()
 	}
 
 	pub fn disconnect(&mut self) -> bool {
-		if let Some(mut connection) = self.connection.take()
-			&& !connection.is_closed()
-		{
-			connection.unsubscribe();
-			return true;
-		}
-
-		false
+		self.connectable.disconnect()
 	}
 }
 
@@ -104,7 +76,11 @@ where
 	{
 		let subscription = self.connectable.subscribe(destination);
 
-		self.connect();
+		// There's nobody to stay connected for when the connector closed the
+		// subscription right away
+		if !self.disconnect_when_ref_count_zero || !subscription.is_closed() {
+			self.connect();
+		}
 
 		subscription
 	}
-- 
2.43.0


From 723b57afe9f9711d03028468104595011b1905ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:51 +0000
Subject: [PATCH 36/47] fix: first, find, find_index, is_empty and take ignore
 their source once they have completed

---
 .../src/find_subscriber.rs                    |  4 +++-
 .../src/find_index_subscriber.rs              |  6 +++--
 .../src/first_subscriber.rs                   |  4 +++-
 .../src/is_empty_subscriber.rs                | 23 +++++++++++++------
 .../src/take_subscriber.rs                    | 14 +++++++----
 5 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/crates/rx_core_operator_find/src/find_subscriber.rs b/crates/rx_core_operator_find/src/find_subscriber.rs
index 194b8bf..02e7612 100644
--- a/crates/rx_core_operator_find/src/find_subscriber.rs
+++ b/crates/rx_core_operator_find/src/find_subscriber.rs
@@ -59,7 +59,9 @@ where
 
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
-		self.destination.error(FindOperatorError::Upstream(error));
+		if !self.match_observed {
+			self.destination.error(FindOperatorError::Upstream(error));
+		}
 	}
 
 	#[inline]
diff --git a/crates/rx_core_operator_find_index/src/find_index_subscriber.rs b/crates/rx_core_operator_find_index/src/find_index_subscriber.rs
index 4a2fe6b..3f1a5cf 100644
--- a/crates/rx_core_operator_find_index/src/find_index_subscriber.rs
+++ b/crates/rx_core_operator_find_index/src/find_index_subscriber.rs
@@ -69,8 +69,10 @@ where
 
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
-		self.destination
-			.error(FindIndexOperatorError::Upstream(error));
+		if !self.match_observed {
+			self.destination
+				.error(FindIndexOperatorError::Upstream(error));
+		}
 	}
 
 	#[inline]
diff --git a/crates/rx_core_operator_first/src/first_subscriber.rs b/crates/rx_core_operator_first/src/first_subscriber.rs
index ecb7717..c47e412 100644
--- a/crates/rx_core_operator_first/src/first_subscriber.rs
+++ b/crates/rx_core_operator_first/src/first_subscriber.rs
@@ -61,7 +61,9 @@ where
 
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
-		self.destination.error(FirstOperatorError::Upstream(error));
+		if !self.first_observed {
+			self.destination.error(FirstOperatorError::Upstream(error));
+		}
 	}
 
 	#[inline]
diff --git a/crates/rx_core_operator_is_empty/src/is_empty_subscriber.rs b/crates/rx_core_operator_is_empty/src/is_empty_subscriber.rs
index 337275f..e0d2790 100644
--- a/crates/rx_core_operator_is_empty/src/is_empty_subscriber.rs
+++ b/crates/rx_core_operator_is_empty/src/is_empty_subscriber.rs
@@ -15,6 +15,7 @@ where
 {
 	#[destination]
 	destination: Destination,
+	next_observed: bool,
 	_phantom_data: PhantomInvariant<In>,
 }
 
@@ -26,6 +27,7 @@ where
 	pub fn new(destination: Destination) -> Self {
 		Self {
 			destination,
+			next_observed: false,
 			_phantom_data: PhantomData,
 		}
 	}
@@ -38,22 +40,29 @@ where
 {
 	#[inline]
 	fn next(&mut self, _next: Self::In) {
-		self.destination.next(false);
-		if !self.destination.is_closed() {
-			self.destination.complete();
+		if !self.next_observed {
+			self.next_observed = true;
+			self.destination.next(false);
+			if !self.destination.is_closed() {
+				self.destination.complete();
+			}
 		}
 	}
 
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
-		self.destination.error(error);
+		if !self.next_observed {
+			self.destination.error(error);
+		}
 	}
 
 	#[inline]
 	fn complete(&mut self) {
-		self.destination.next(true);
-		if !self.destination.is_closed() {
-			self.destination.complete();
+		if !self.next_observed {
+			self.destination.next(true);
+			if !self.destination.is_closed() {
+				self.destination.complete();
+			}
 		}
 	}
 }
diff --git a/crates/rx_core_operator_take/src/take_subscriber.rs b/crates/rx_core_operator_take/src/take_subscriber.rs
index 5e68e74..a929e29 100644
--- a/crates/rx_core_operator_take/src/take_subscriber.rs
+++ b/crates/rx_core_operator_take/src/take_subscriber.rs
@@ -26,7 +26,7 @@ where
 			destination.complete();
 		}
 
-		let closed: SubscriptionClosedFlag = destination.is_closed().into();
+		let closed: SubscriptionClosedFlag = (count == 0 || destination.is_closed()).into();
 
 		Self {
 			destination,
@@ -53,14 +53,18 @@ where
 
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
-		self.destination.error(error);
-		self.closed.close();
+		if !*self.closed {
+			self.destination.error(error);
+			self.closed.close();
+		}
 	}
 
 	#[inline]
 	fn complete(&mut self) {
-		self.destination.complete();
-		self.closed.close();
+		if !*self.closed {
+			self.destination.complete();
+			self.closed.close();
+		}
 	}
 }
 
-- 
2.43.0


From 7bdfb2e07526124daa28a14acdd5712bd50eef1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:51 +0000
Subject: [PATCH 37/47] fix: combine_latest, combine_changes, zip and join send
 nothing after their terminal notification

---
 .../src/combine_changes_subscriber.rs            | 16 ++++++++++++++--
 .../src/combine_latest_subscriber.rs             | 14 +++++++++++++-
 .../src/join_subscriber.rs                       | 14 +++++++++++++-
 .../rx_core_observable_zip/src/zip_subscriber.rs | 13 ++++++++++++-
 4 files changed, 52 insertions(+), 5 deletions(-)

diff --git a/crates/rx_core_observable_combine_changes/src/combine_changes_subscriber.rs b/crates/rx_core_observable_combine_changes/src/combine_changes_subscriber.rs
index 3f69e18..07a1152 100644
--- a/crates/rx_core_observable_combine_changes/src/combine_changes_subscriber.rs
+++ b/crates/rx_core_observable_combine_changes/src/combine_changes_subscriber.rs
@@ -36,6 +36,9 @@ where
 	o2_state: NotificationState<O2::Out, O2::OutError>,
 	#[destination]
 	destination: Destination,
+	/// Tracked in case the destination doesn't close when it receives a terminal
+	/// notification.
+	finished: bool,
 }
 
 impl<Destination, O1, O2> CombineChangesSubscriber<Destination, O1, O2>
@@ -53,6 +56,7 @@ where
 			o1_state: NotificationState::default(),
 			o2_state: NotificationState::default(),
 			destination,
+			finished: false,
 		}
 	}
 
@@ -67,12 +71,15 @@ where
 		if !self.destination.is_closed()
 			&& (self.o1_state.is_completed() && self.o2_state.is_completed())
 		{
+			self.finished = true;
 			self.destination.complete();
 		}
 	}
 
 	fn try_unsubscribe(&mut self) {
-		if !self.destination.is_closed() && (self.o1_state.is_closed() && self.o2_state.is_closed())
+		if !self.finished
+			&& !self.destination.is_closed()
+			&& (self.o1_state.is_closed() && self.o2_state.is_closed())
 		{
 			self.destination.unsubscribe();
 		}
@@ -90,6 +97,10 @@ where
 	O2::OutError: Into<Destination::InError>,
 {
 	fn next(&mut self, next: Self::In) {
+		if self.finished {
+			return;
+		}
+
 		let mut o1_just_nexted = false;
 		let mut o2_just_nexted = false;
 		match next {
@@ -104,6 +115,7 @@ where
 		};
 
 		if let Some(error) = self.take_either_error() {
+			self.finished = true;
 			self.destination.error(error);
 			return;
 		}
@@ -111,7 +123,7 @@ where
 		self.try_complete();
 		self.try_unsubscribe();
 
-		if !self.is_closed() && (o1_just_nexted || o2_just_nexted) {
+		if !self.finished && !self.is_closed() && (o1_just_nexted || o2_just_nexted) {
 			let o1_change = self
 				.o1_state
 				.get_value()
diff --git a/crates/rx_core_observable_combine_latest/src/combine_latest_subscriber.rs b/crates/rx_core_observable_combine_latest/src/combine_latest_subscriber.rs
index 159924b..6d04b89 100644
--- a/crates/rx_core_observable_combine_latest/src/combine_latest_subscriber.rs
+++ b/crates/rx_core_observable_combine_latest/src/combine_latest_subscriber.rs
@@ -34,6 +34,9 @@ where
 	o2_state: NotificationState<O2::Out, O2::OutError>,
 	#[destination]
 	destination: Destination,
+	/// Tracked in case the destination doesn't close when it receives a terminal
+	/// notification.
+	finished: bool,
 }
 
 impl<Destination, O1, O2> CombineLatestSubscriber<Destination, O1, O2>
@@ -51,6 +54,7 @@ where
 			o1_state: NotificationState::default(),
 			o2_state: NotificationState::default(),
 			destination,
+			finished: false,
 		}
 	}
 
@@ -74,12 +78,14 @@ where
 				|| (self.o1_state.is_primed() && self.o2_state.is_completed_but_not_primed())
 				|| (self.o1_state.is_completed_but_not_primed() && self.o2_state.is_primed()))
 		{
+			self.finished = true;
 			self.destination.complete();
 		}
 	}
 
 	fn try_unsubscribe(&mut self) {
-		if !self.destination.is_closed()
+		if !self.finished
+			&& !self.destination.is_closed()
 			&& ((self.o1_state.is_closed() && self.o2_state.is_closed())
 				|| (self.o1_state.is_waiting() && self.o2_state.is_closed_but_not_primed())
 				|| (self.o1_state.is_closed_but_not_primed() && self.o2_state.is_waiting()))
@@ -100,6 +106,10 @@ where
 	O2::OutError: Into<Destination::InError>,
 {
 	fn next(&mut self, next: Self::In) {
+		if self.finished {
+			return;
+		}
+
 		let either_was_next = match next {
 			EitherObservableNotification2::O1(notification) => {
 				let is_next = matches!(notification, SubscriberNotification::Next(_));
@@ -114,6 +124,7 @@ where
 		};
 
 		if let Some(error) = self.take_either_error() {
+			self.finished = true;
 			self.destination.error(error);
 			return;
 		}
@@ -122,6 +133,7 @@ where
 		self.try_unsubscribe();
 
 		if either_was_next
+			&& !self.finished
 			&& !self.is_closed()
 			&& let Some(next) = self.get_next()
 		{
diff --git a/crates/rx_core_observable_join/src/join_subscriber.rs b/crates/rx_core_observable_join/src/join_subscriber.rs
index 1db2db0..83e8b67 100644
--- a/crates/rx_core_observable_join/src/join_subscriber.rs
+++ b/crates/rx_core_observable_join/src/join_subscriber.rs
@@ -36,6 +36,9 @@ where
 	o2_state: NotificationState<O2::Out, O2::OutError>,
 	#[destination]
 	destination: Destination,
+	/// Tracked in case the destination doesn't close when it receives a terminal
+	/// notification.
+	finished: bool,
 }
 
 impl<Destination, O1, O2> JoinSubscriber<Destination, O1, O2>
@@ -53,6 +56,7 @@ where
 			o1_state: NotificationState::default(),
 			o2_state: NotificationState::default(),
 			destination,
+			finished: false,
 		}
 	}
 
@@ -74,6 +78,7 @@ where
 		if !self.destination.is_closed()
 			&& (self.o1_state.is_completed() && self.o2_state.is_completed())
 		{
+			self.finished = true;
 			if let Some(next) = self.get_next() {
 				self.destination.next(next);
 			}
@@ -83,7 +88,9 @@ where
 	}
 
 	fn try_unsubscribe(&mut self) {
-		if !self.destination.is_closed() && (self.o1_state.is_closed() && self.o2_state.is_closed())
+		if !self.finished
+			&& !self.destination.is_closed()
+			&& (self.o1_state.is_closed() && self.o2_state.is_closed())
 		{
 			self.destination.unsubscribe();
 		}
@@ -101,6 +108,10 @@ where
 	O2::OutError: Into<Destination::InError>,
 {
 	fn next(&mut self, next: Self::In) {
+		if self.finished {
+			return;
+		}
+
 		match next {
 			EitherObservableNotification2::O1(notification) => {
 				if !self
@@ -121,6 +132,7 @@ where
 		};
 
 		if let Some(error) = self.take_either_error() {
+			self.finished = true;
 			self.destination.error(error);
 			return;
 		}
diff --git a/crates/rx_core_observable_zip/src/zip_subscriber.rs b/crates/rx_core_observable_zip/src/zip_subscriber.rs
index bcdce32..75f8bba 100644
--- a/crates/rx_core_observable_zip/src/zip_subscriber.rs
+++ b/crates/rx_core_observable_zip/src/zip_subscriber.rs
@@ -36,6 +36,9 @@ where
 	destination: Destination,
 	o1_queue: NotificationQueue<O1::Out, O1::OutError>,
 	o2_queue: NotificationQueue<O2::Out, O2::OutError>,
+	/// Tracked in case the destination doesn't close when it receives a terminal
+	/// notification.
+	finished: bool,
 }
 
 impl<Destination, O1, O2> ZipSubscriber<Destination, O1, O2>
@@ -53,6 +56,7 @@ where
 			o1_queue: NotificationQueue::new(options.clone()),
 			o2_queue: NotificationQueue::new(options),
 			destination,
+			finished: false,
 		}
 	}
 
@@ -78,12 +82,14 @@ where
 		if !self.destination.is_closed()
 			&& (self.o1_queue.is_completed() || self.o2_queue.is_completed())
 		{
+			self.finished = true;
 			self.destination.complete();
 		}
 	}
 
 	fn try_unsubscribe(&mut self) {
-		if !self.destination.is_closed()
+		if !self.finished
+			&& !self.destination.is_closed()
 			&& (self.o1_queue.is_closed() || self.o2_queue.is_closed())
 		{
 			self.destination.unsubscribe();
@@ -102,6 +108,10 @@ where
 	O2::OutError: Into<Destination::InError>,
 {
 	fn next(&mut self, next: Self::In) {
+		if self.finished {
+			return;
+		}
+
 		let either_was_next = match next {
 			EitherObservableNotification2::O1(notification) => {
 				let is_next = matches!(notification, SubscriberNotification::Next(_));
@@ -116,6 +126,7 @@ where
 		};
 
 		if let Some(error) = self.take_either_error() {
+			self.finished = true;
 			self.destination.error(error);
 			return;
 		}
-- 
2.43.0


From b7baf02b885ef78b189b54ed0d9c69e96be80c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:08 +0000
Subject: [PATCH 38/47] fix: combine_latest, combine_changes, zip and join send
 nothing after unsubscribing their destination

---
 .../src/combine_changes_subscriber.rs                            | 1 +
 .../src/combine_latest_subscriber.rs                             | 1 +
 crates/rx_core_observable_join/src/join_subscriber.rs            | 1 +
 crates/rx_core_observable_zip/src/zip_subscriber.rs              | 1 +
 4 files changed, 4 insertions(+)

diff --git a/crates/rx_core_observable_combine_changes/src/combine_changes_subscriber.rs b/crates/rx_core_observable_combine_changes/src/combine_changes_subscriber.rs
index 07a1152..06d89a4 100644
--- a/crates/rx_core_observable_combine_changes/src/combine_changes_subscriber.rs
+++ b/crates/rx_core_observable_combine_changes/src/combine_changes_subscriber.rs
@@ -81,6 +81,7 @@ where
 			&& !self.destination.is_closed()
 			&& (self.o1_state.is_closed() && self.o2_state.is_closed())
 		{
+			self.finished = true;
 			self.destination.unsubscribe();
 		}
 	}
diff --git a/crates/rx_core_observable_combine_latest/src/combine_latest_subscriber.rs b/crates/rx_core_observable_combine_latest/src/combine_latest_subscriber.rs
index 6d04b89..81b5586 100644
--- a/crates/rx_core_observable_combine_latest/src/combine_latest_subscriber.rs
+++ b/crates/rx_core_observable_combine_latest/src/combine_latest_subscriber.rs
@@ -90,6 +90,7 @@ where
 				|| (self.o1_state.is_waiting() && self.o2_state.is_closed_but_not_primed())
 				|| (self.o1_state.is_closed_but_not_primed() && self.o2_state.is_waiting()))
 		{
+			self.finished = true;
 			self.destination.unsubscribe();
 		}
 	}
diff --git a/crates/rx_core_observable_join/src/join_subscriber.rs b/crates/rx_core_observable_join/src/join_subscriber.rs
index 83e8b67..6fddf93 100644
--- a/crates/rx_core_observable_join/src/join_subscriber.rs
+++ b/crates/rx_core_observable_join/src/join_subscriber.rs
@@ -92,6 +92,7 @@ where
 			&& !self.destination.is_closed()
 			&& (self.o1_state.is_closed() && self.o2_state.is_closed())
 		{
+			self.finished = true;
 			self.destination.unsubscribe();
 		}
 	}
diff --git a/crates/rx_core_observable_zip/src/zip_subscriber.rs b/crates/rx_core_observable_zip/src/zip_subscriber.rs
index 75f8bba..65387cc 100644
--- a/crates/rx_core_observable_zip/src/zip_subscriber.rs
+++ b/crates/rx_core_observable_zip/src/zip_subscriber.rs
@@ -92,6 +92,7 @@ where
 			&& !self.destination.is_closed()
 			&& (self.o1_queue.is_closed() || self.o2_queue.is_closed())
 		{
+			self.finished = true;
 			self.destination.unsubscribe();
 		}
 	}
-- 
2.43.0


From e7f8aebec8b62617a4b8ac054be7eb653e829ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:13 +0000
Subject: [PATCH 39/47] fix: throttle_time ignores its source once it has sent
 or received a terminal notification

---
 .../src/throttle_time_subscriber.rs                      | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs b/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
index d106a6c..8bc9233 100644
--- a/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
+++ b/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
@@ -154,6 +154,9 @@ where
 	fn next(&mut self, next: Self::In) {
 		let was_idle = {
 			let mut state = self.state.lock_ignore_poison();
+			if state.upstream_state.is_closed() {
+				return;
+			}
 			let was_idle = state.throttle_deadline.is_none();
 			match state.throttle_deadline {
 				None => {
@@ -194,6 +197,9 @@ where
 	fn error(&mut self, error: Self::InError) {
 		{
 			let mut state = self.state.lock_ignore_poison();
+			if state.upstream_state.is_closed() {
+				return;
+			}
 			state.upstream_state.error();
 			state.clear_throttle();
 		}
@@ -205,6 +211,9 @@ where
 	fn complete(&mut self) {
 		let should_complete_immediately = {
 			let mut state = self.state.lock_ignore_poison();
+			if state.upstream_state.is_closed() {
+				return;
+			}
 			state.upstream_state.complete();
 
 			if state.throttle_deadline.is_none() || !state.has_pending_trailing(self.options) {
-- 
2.43.0


From 55f83a63416142074888a3a64f1e0764fddd61c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:04 +0000
Subject: [PATCH 40/47] fix: lift_result sends nothing after an error

---
 .../src/lift_result_subscriber.rs                    | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/rx_core_operator_lift_result/src/lift_result_subscriber.rs b/crates/rx_core_operator_lift_result/src/lift_result_subscriber.rs
index d5ce651..2a297ee 100644
--- a/crates/rx_core_operator_lift_result/src/lift_result_subscriber.rs
+++ b/crates/rx_core_operator_lift_result/src/lift_result_subscriber.rs
@@ -17,6 +17,8 @@ where
 {
 	#[destination]
 	destination: Destination,
+	/// Tracked in case the destination doesn't close when it receives an error.
+	errored: bool,
 	_phantom_data: PhantomInvariant<(ResultIn, ResultInError, InError)>,
 }
 
@@ -31,6 +33,7 @@ where
 	pub fn new(destination: Destination) -> Self {
 		Self {
 			destination,
+			errored: false,
 			_phantom_data: PhantomData,
 		}
 	}
@@ -46,9 +49,14 @@ where
 {
 	#[inline]
 	fn next(&mut self, next: Self::In) {
+		if self.errored {
+			return;
+		}
+
 		match next {
 			Ok(next) => self.destination.next(next),
 			Err(error) => {
+				self.errored = true;
 				self.destination.error(error);
 			}
 		}
@@ -60,6 +68,8 @@ where
 
 	#[inline]
 	fn complete(&mut self) {
-		self.destination.complete();
+		if !self.errored {
+			self.destination.complete();
+		}
 	}
 }
-- 
2.43.0


From 9cdf5181152d4c3b6c8deb25ac29cecf3936b996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:13 +0000
Subject: [PATCH 41/47] fix: SharedSubscriber neither loses, delays nor repeats
 notifications when it is used by several threads

---
 .../src/subscribers/subscriber_shared.rs      | 234 +++++++++++++++---
 1 file changed, 200 insertions(+), 34 deletions(-)

diff --git a/crates/rx_core_common/src/subscribers/subscriber_shared.rs b/crates/rx_core_common/src/subscribers/subscriber_shared.rs
index b6963ff..24f0e5d 100644
--- a/crates/rx_core_common/src/subscribers/subscriber_shared.rs
+++ b/crates/rx_core_common/src/subscribers/subscriber_shared.rs
@@ -1,11 +1,14 @@
-use std::sync::{Arc, Mutex, MutexGuard, Weak};
+use std::{
+	sync::{Arc, Mutex, MutexGuard, TryLockError, Weak},
+	thread::{self, ThreadId},
+};
 
 use rx_core_macro_subscriber_derive::RxSubscriber;
 
 use crate::{
 	LockWithPoisonBehavior, RxObserver, SharedDestination, Signal, Subscriber,
 	SubscriberNotification, SubscriberPushNotificationExtention, SubscriptionClosedFlag,
-	SubscriptionLike, UpgradeableObserver,
+	SubscriptionLike, Teardown, TeardownCollection, UpgradeableObserver,
 };
 
 pub(crate) const SUBSCRIBER_MAX_RECURSION_DEPTH: usize = 10;
@@ -38,7 +41,15 @@ where
 	In: Signal,
 	InError: Signal,
 {
-	pub(crate) deferred_notifications_queue: Vec<SubscriberNotification<In, InError>>,
+	/// The deferred notifications with how deeply they are nested in others.
+	pub(crate) deferred_notifications_queue: Vec<(usize, SubscriberNotification<In, InError>)>,
+
+	/// The thread that is applying a deferred notification, and the depth of it.
+	pub(crate) applying: Option<(ThreadId, usize)>,
+
+	/// The threads that are holding the destination just for a moment, without
+	/// applying what other threads are deferring in the meantime.
+	pub(crate) holding: Vec<ThreadId>,
 
 	/// Separate close flag for the real, applied closedness, as non-deferred
 	/// signals only have to respect this.
@@ -58,18 +69,34 @@ where
 	InError: Signal,
 {
 	pub(crate) fn defer_notification(&mut self, notification: SubscriberNotification<In, InError>) {
-		// The first unsubscribe notification must be let through
-		let is_first_unsubscribe = matches!(notification, SubscriberNotification::Unsubscribe)
-			&& !self.observed_unsubscribe;
+		// The first unsubscribe notification must be let through, only that one
+		// is ever deferred
+		let is_first_unsubscribe = matches!(notification, SubscriberNotification::Unsubscribe);
 
 		if *self.closed_flag && !is_first_unsubscribe {
 			return;
 		}
 
-		self.deferred_notifications_queue.push(notification);
+		// Another thread could have sent a terminal notification since it was
+		// last checked, it may even be already applied
+		if matches!(notification, SubscriberNotification::Next(_)) && self.is_closed() {
+			return;
+		}
+
+		// Whatever is deferred by other threads is not nested in what is
+		// being applied
+		let depth = match self.applying {
+			Some((thread_id, depth)) if thread_id == thread::current().id() => depth + 1,
+			_ => 0,
+		};
+
+		self.deferred_notifications_queue
+			.push((depth, notification));
 	}
 
-	pub(crate) fn drain_notification_queue(&mut self) -> Vec<SubscriberNotification<In, InError>> {
+	pub(crate) fn drain_notification_queue(
+		&mut self,
+	) -> Vec<(usize, SubscriberNotification<In, InError>)> {
 		self.deferred_notifications_queue
 			.drain(..)
 			.collect::<Vec<_>>()
@@ -81,6 +108,11 @@ where
 		!self.deferred_notifications_queue.is_empty()
 	}
 
+	/// Holding it does not take long, and not because of this thread
+	pub(crate) fn is_held_for_a_moment(&self) -> bool {
+		!self.holding.is_empty() && !self.holding.contains(&thread::current().id())
+	}
+
 	pub(crate) fn is_unsubscribed(&self) -> bool {
 		self.observed_unsubscribe
 	}
@@ -111,6 +143,26 @@ where
 	}
 }
 
+struct HeldForAMoment<In, InError>(Arc<Mutex<SubscriberDeferredState<In, InError>>>)
+where
+	In: Signal,
+	InError: Signal;
+
+impl<In, InError> Drop for HeldForAMoment<In, InError>
+where
+	In: Signal,
+	InError: Signal,
+{
+	fn drop(&mut self) {
+		let mut state = self.0.lock_ignore_poison();
+		let thread_id = thread::current().id();
+
+		if let Some(index) = state.holding.iter().position(|id| *id == thread_id) {
+			state.holding.swap_remove(index);
+		}
+	}
+}
+
 impl<In, InError> Default for SubscriberDeferredState<In, InError>
 where
 	In: Signal,
@@ -123,6 +175,8 @@ where
 			observed_unsubscribe: false,
 			observed_error: false,
 			deferred_notifications_queue: Vec::default(),
+			applying: None,
+			holding: Vec::default(),
 		}
 	}
 }
@@ -147,7 +201,6 @@ where
 #[_rx_core_common_crate(crate)]
 #[rx_in(Destination::In)]
 #[rx_in_error(Destination::InError)]
-#[rx_delegate_teardown_collection]
 #[rx_skip_unsubscribe_on_drop_impl]
 pub struct SharedSubscriber<Destination>
 where
@@ -188,10 +241,30 @@ where
 		Arc::downgrade(&self.shared_destination)
 	}
 
-	fn try_apply_deferred(&mut self) {
-		if self.deferred_state.lock_ignore_poison().is_dirty()
-			&& let Ok(mut subscriber) = self.shared_destination.try_lock()
-		{
+	/// Applies the deferred notifications unless another call is holding the
+	/// destination, in which case that one will. Once the destination is
+	/// released it is checked again, another thread could have deferred
+	/// something in the meantime.
+	fn try_apply_deferred(&self) {
+		loop {
+			let mut subscriber = {
+				let state = self.deferred_state.lock_ignore_poison();
+
+				if !state.is_dirty() {
+					return;
+				}
+
+				match self.shared_destination.try_lock() {
+					Ok(subscriber) => subscriber,
+					Err(_) if state.is_held_for_a_moment() => {
+						drop(state);
+						thread::yield_now();
+						continue;
+					}
+					Err(_) => return,
+				}
+			};
+
 			SharedSubscriber::<Destination>::apply_notification_queue::<Destination>(
 				self.deferred_state.clone(),
 				&mut subscriber,
@@ -199,18 +272,32 @@ where
 		}
 	}
 
+	/// Registered before the destination is held, to be dropped after it's
+	/// released.
+	fn hold_for_a_moment(
+		&self,
+		state: &mut SubscriberDeferredState<Destination::In, Destination::InError>,
+	) -> HeldForAMoment<Destination::In, Destination::InError> {
+		state.holding.push(thread::current().id());
+		HeldForAMoment(self.deferred_state.clone())
+	}
+
 	fn apply_notification_queue<D>(
 		state: Arc<Mutex<SubscriberDeferredState<D::In, D::InError>>>,
 		subscriber: &mut MutexGuard<'_, D>,
 	) where
 		D: Subscriber,
 	{
-		for queue_depth in 0..=SUBSCRIBER_MAX_RECURSION_DEPTH {
+		loop {
 			let notifications = {
 				let mut locked_state = state.lock_ignore_poison();
 
 				// Infinite loop protection
-				if queue_depth == SUBSCRIBER_MAX_RECURSION_DEPTH {
+				if locked_state
+					.deferred_notifications_queue
+					.iter()
+					.any(|(depth, _)| *depth >= SUBSCRIBER_MAX_RECURSION_DEPTH)
+				{
 					panic!(
 						"Notification queue depth have exceeded {SUBSCRIBER_MAX_RECURSION_DEPTH}!"
 					)
@@ -229,13 +316,20 @@ where
 			// Each closedness check acquires a fresh lock for up-to-date
 			// information and immediately releases it to allow applied
 			// notifications to acquire it again
-			for notification in notifications.into_iter() {
+			for (depth, notification) in notifications.into_iter() {
 				let is_closing = notification.is_closing();
 
+				// Even after a terminal notification
+				let is_unsubscribe = matches!(&notification, SubscriberNotification::Unsubscribe);
+
+				let is_closed = {
+					let mut locked_state = state.lock_clear_poison();
+					locked_state.applying = Some((thread::current().id(), depth));
+					locked_state.is_closed_ignoring_deferred()
+				};
+
 				// Other notifications can be safely dropped when already closed
-				if !state.lock_clear_poison().is_closed_ignoring_deferred()
-					&& !subscriber.is_closed()
-				{
+				if (!is_closed || is_unsubscribe) && !subscriber.is_closed() {
 					subscriber.push(notification);
 				}
 
@@ -243,7 +337,28 @@ where
 					state.lock_ignore_poison().closed_flag.close();
 				}
 			}
+
+			state.lock_ignore_poison().applying = None;
+		}
+	}
+
+	/// Only one of the threads sending a terminal notification can be the first.
+	fn observe_terminal(
+		&self,
+		observe: impl FnOnce(&mut SubscriberDeferredState<Destination::In, Destination::InError>),
+	) -> bool {
+		let mut state = self.deferred_state.lock_ignore_poison();
+		let is_first = !state.is_closed();
+		if is_first {
+			observe(&mut state);
 		}
+		is_first
+	}
+
+	fn is_closed_ignoring_deferred(&self) -> bool {
+		self.deferred_state
+			.lock_ignore_poison()
+			.is_closed_ignoring_deferred()
 	}
 
 	pub(crate) fn try_next(
@@ -254,7 +369,11 @@ where
 			Ok(mut subscribers) => {
 				Self::apply_notification_queue(self.deferred_state.clone(), &mut subscribers); // First, the notification queue!
 
-				subscribers.next(next);
+				// Another thread could have closed it since it was last checked
+				if !self.deferred_state.lock_ignore_poison().is_closed() && !subscribers.is_closed()
+				{
+					subscribers.next(next);
+				}
 
 				Ok(())
 			}
@@ -270,7 +389,10 @@ where
 			Ok(mut subscribers) => {
 				Self::apply_notification_queue(self.deferred_state.clone(), &mut subscribers); // First, the notification queue!
 
-				subscribers.error(error);
+				// Another thread could have closed it since it was last checked
+				if !self.is_closed_ignoring_deferred() && !subscribers.is_closed() {
+					subscribers.error(error);
+				}
 
 				Ok(())
 			}
@@ -283,7 +405,10 @@ where
 			Ok(mut subscribers) => {
 				Self::apply_notification_queue(self.deferred_state.clone(), &mut subscribers); // First, the notification queue!
 
-				subscribers.complete();
+				// Another thread could have closed it since it was last checked
+				if !self.is_closed_ignoring_deferred() && !subscribers.is_closed() {
+					subscribers.complete();
+				}
 				Ok(())
 			}
 			Err(_) => Err(SubscriberCompleteLockError),
@@ -337,9 +462,7 @@ where
 	}
 
 	fn error(&mut self, error: Self::InError) {
-		if !self.is_closed() {
-			self.deferred_state.lock_ignore_poison().observed_error = true;
-
+		if !self.is_closed() && self.observe_terminal(|state| state.observed_error = true) {
 			if let Err(error_error) = self.try_error(error) {
 				self.deferred_state
 					.lock_ignore_poison()
@@ -350,9 +473,7 @@ where
 	}
 
 	fn complete(&mut self) {
-		if !self.is_closed() {
-			self.deferred_state.lock_ignore_poison().observed_completion = true;
-
+		if !self.is_closed() && self.observe_terminal(|state| state.observed_completion = true) {
 			if let Err(_complete_error) = self.try_complete() {
 				self.deferred_state
 					.lock_ignore_poison()
@@ -368,12 +489,21 @@ where
 	Destination: 'static + Subscriber + Send + Sync,
 {
 	fn is_closed(&self) -> bool {
-		self.deferred_state.lock_ignore_poison().is_closed()
-			|| self
-				.shared_destination
-				.try_lock()
-				.map(|s| s.is_closed())
-				.unwrap_or(false)
+		let _held = {
+			let mut state = self.deferred_state.lock_ignore_poison();
+			if state.is_closed() {
+				return true;
+			}
+			self.hold_for_a_moment(&mut state)
+		};
+
+		let is_closed = self
+			.shared_destination
+			.try_lock()
+			.map(|s| s.is_closed())
+			.unwrap_or(false);
+
+		is_closed
 	}
 
 	fn unsubscribe(&mut self) {
@@ -394,6 +524,40 @@ where
 	}
 }
 
+impl<Destination> TeardownCollection for SharedSubscriber<Destination>
+where
+	Destination: 'static + Subscriber + Send + Sync,
+{
+	fn add_teardown(&mut self, teardown: Teardown) {
+		loop {
+			let mut state = self.deferred_state.lock_ignore_poison();
+			let destination = self.shared_destination.try_lock();
+
+			if matches!(destination, Err(TryLockError::WouldBlock)) {
+				drop(state);
+				thread::yield_now();
+				continue;
+			}
+
+			let held = self.hold_for_a_moment(&mut state);
+			drop(state);
+
+			match destination {
+				Ok(mut destination) => {
+					destination.add_teardown(teardown);
+					drop(destination);
+				}
+				Err(poison_error) => {
+					drop(poison_error);
+					self.shared_destination.clone().add_teardown(teardown);
+				}
+			}
+			drop(held);
+			return;
+		}
+	}
+}
+
 impl<Destination> SharedDestination<Destination> for SharedSubscriber<Destination>
 where
 	Destination: 'static + Subscriber + Send + Sync,
@@ -404,6 +568,7 @@ where
 		F: Fn(&Destination),
 	{
 		self.shared_destination.access(accessor);
+		self.try_apply_deferred();
 	}
 
 	#[inline]
@@ -412,6 +577,7 @@ where
 		F: FnMut(&mut Destination),
 	{
 		self.shared_destination.access_mut(accessor);
+		self.try_apply_deferred();
 	}
 }
 
-- 
2.43.0


From 765a2ec4c2dfd98e7f32eba7df8040b83cc306d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:13 +0000
Subject: [PATCH 42/47] fix: PublishSubject neither loses nor delays
 notifications when it is used by several threads

---
 .../rx_core_subject_publish/src/multicast.rs  | 119 ++++++++++++++++--
 .../src/publish_subject.rs                    |  72 ++++++-----
 2 files changed, 148 insertions(+), 43 deletions(-)

diff --git a/crates/rx_core_subject_publish/src/multicast.rs b/crates/rx_core_subject_publish/src/multicast.rs
index 6d5dff1..ba40f0b 100644
--- a/crates/rx_core_subject_publish/src/multicast.rs
+++ b/crates/rx_core_subject_publish/src/multicast.rs
@@ -1,6 +1,7 @@
 use std::{
 	collections::HashMap,
 	sync::{Arc, Mutex, MutexGuard},
+	thread::{self, ThreadId},
 };
 
 use derive_where::derive_where;
@@ -26,6 +27,11 @@ where
 	#[derive_where(skip)]
 	pub(crate) subscribers:
 		HashMap<MulticastSubscriberId, Arc<Mutex<dyn Subscriber<In = In, InError = InError>>>>,
+
+	/// Set once the subscribers were sent a terminal notification or were
+	/// unsubscribed. Another thread could have done that after it was checked
+	/// if the subject is closed.
+	pub(crate) is_ended: bool,
 }
 
 impl<In, InError> Subscribers<In, InError>
@@ -61,6 +67,10 @@ where
 	}
 
 	pub(crate) fn next(&mut self, next: In) {
+		if self.is_ended {
+			return;
+		}
+
 		for (_, destination) in self.subscribers.iter_mut() {
 			if !destination.is_closed() {
 				destination.next(next.clone());
@@ -69,6 +79,11 @@ where
 	}
 
 	pub(crate) fn error(&mut self, error: InError) {
+		if self.is_ended {
+			return;
+		}
+		self.is_ended = true;
+
 		for (_, destination) in self.subscribers.iter_mut() {
 			if !destination.is_closed() {
 				destination.error(error.clone());
@@ -77,6 +92,11 @@ where
 	}
 
 	pub(crate) fn complete(&mut self) {
+		if self.is_ended {
+			return;
+		}
+		self.is_ended = true;
+
 		for (_, destination) in self.subscribers.iter_mut() {
 			if !destination.is_closed() {
 				destination.complete();
@@ -85,6 +105,8 @@ where
 	}
 
 	pub(crate) fn unsubscribe(&mut self) {
+		self.is_ended = true;
+
 		for (_, mut destination) in self.subscribers.drain() {
 			if !destination.is_closed() {
 				destination.unsubscribe();
@@ -133,12 +155,16 @@ where
 		state: Arc<Mutex<MulticastDeferredState<In, InError>>>,
 		subscribers: &mut MutexGuard<'_, Subscribers<In, InError>>,
 	) {
-		for queue_depth in 0..=MULTICAST_MAX_RECURSION_DEPTH {
+		loop {
 			let notifications = {
 				let mut locked_state = state.lock_ignore_poison();
 
 				// Infinite loop protection
-				if queue_depth == MULTICAST_MAX_RECURSION_DEPTH {
+				if locked_state
+					.deferred_notifications_queue
+					.iter()
+					.any(|(depth, _)| *depth >= MULTICAST_MAX_RECURSION_DEPTH)
+				{
 					panic!(
 						"Notification queue depth have exceeded {MULTICAST_MAX_RECURSION_DEPTH}!"
 					)
@@ -157,15 +183,22 @@ where
 			// Each closedness check acquires a fresh lock for up-to-date
 			// information and immediately releases it to allow applied
 			// notifications to acquire it again
-			for mut notification in notifications.into_iter() {
+			for (depth, mut notification) in notifications.into_iter() {
+				let is_closed = {
+					let mut locked_state = state.lock_clear_poison();
+					locked_state.applying = Some((thread::current().id(), depth));
+					locked_state.is_closed_ignoring_deferred()
+				};
+
 				if let MulticastNotification::Add(_id, subscriber) = &mut notification {
 					if subscriber.is_closed() {
 						// Don't add an already closed subscriber, just drop it
 						continue;
-					} else if state.lock_ignore_poison().is_closed_ignoring_deferred() {
+					} else if is_closed || subscribers.is_ended {
 						// If the subscriber isn't closed, but the state is
 						// the subscriber should be unsubscribed too
-						subscriber.unsubscribe();
+						let terminal = state.lock_ignore_poison().observed_terminal();
+						terminal.send(subscriber);
 						continue;
 					}
 				}
@@ -179,7 +212,7 @@ where
 				let is_unsubscribe = matches!(&notification, MulticastNotification::Unsubscribe);
 
 				// Other notifications can be safely dropped when already closed
-				if !state.lock_clear_poison().is_closed_ignoring_deferred() {
+				if !is_closed {
 					subscribers.apply(notification);
 				}
 
@@ -192,6 +225,8 @@ where
 				}
 			}
 
+			state.lock_ignore_poison().applying = None;
+
 			subscribers.clean();
 		}
 	}
@@ -210,7 +245,7 @@ where
 
 	pub(crate) fn try_add_subscriber(
 		&mut self,
-		subscriber: Arc<Mutex<dyn Subscriber<In = In, InError = InError>>>,
+		mut subscriber: Arc<Mutex<dyn Subscriber<In = In, InError = InError>>>,
 	) -> Result<MulticastSubscriberId, MulticastAddLockError<In, InError>> {
 		let id = self.subscriber_id_generator.lock_ignore_poison().get_next();
 
@@ -218,7 +253,13 @@ where
 			Ok(mut subscribers) => {
 				Self::apply_notification_queue(self.deferred_state.clone(), &mut subscribers); // First, the notification queue!
 
-				subscribers.add_subscriber(id, subscriber);
+				if subscribers.is_ended {
+					// Another thread closed the subject in the meantime
+					let terminal = self.deferred_state.lock_ignore_poison().observed_terminal();
+					terminal.send(&mut subscriber);
+				} else {
+					subscribers.add_subscriber(id, subscriber);
+				}
 
 				Ok(id)
 			}
@@ -299,13 +340,47 @@ where
 	}
 }
 
+/// What a subscriber has to be sent when it arrives after the subject has
+/// been closed.
+pub(crate) enum MulticastTerminal<InError> {
+	Error(InError),
+	Complete,
+	Unsubscribe,
+}
+
+impl<InError> MulticastTerminal<InError>
+where
+	InError: Signal,
+{
+	pub(crate) fn send<S>(self, subscriber: &mut S)
+	where
+		S: RxObserver<InError = InError> + SubscriptionLike,
+	{
+		if !subscriber.is_closed() {
+			match self {
+				MulticastTerminal::Error(error) => subscriber.error(error),
+				MulticastTerminal::Complete => subscriber.complete(),
+				MulticastTerminal::Unsubscribe => {}
+			}
+		}
+
+		if !subscriber.is_closed() {
+			subscriber.unsubscribe();
+		}
+	}
+}
+
 #[derive(Debug)]
 pub(crate) struct MulticastDeferredState<In, InError>
 where
 	In: Signal + Clone,
 	InError: Signal + Clone,
 {
-	pub(crate) deferred_notifications_queue: Vec<MulticastNotification<In, InError>>,
+	/// The deferred notifications with how deeply they are nested in others.
+	pub(crate) deferred_notifications_queue: Vec<(usize, MulticastNotification<In, InError>)>,
+
+	/// The thread that is applying a deferred notification, and the depth of it.
+	pub(crate) applying: Option<(ThreadId, usize)>,
 
 	/// Separate close flag for the real, applied closedness, as non-deferred
 	/// signals only have to respect this.
@@ -337,10 +412,20 @@ where
 			return;
 		}
 
-		self.deferred_notifications_queue.push(notification);
+		// Whatever is deferred by other threads is not nested in what is
+		// being applied
+		let depth = match self.applying {
+			Some((thread_id, depth)) if thread_id == thread::current().id() => depth + 1,
+			_ => 0,
+		};
+
+		self.deferred_notifications_queue
+			.push((depth, notification));
 	}
 
-	pub(crate) fn drain_notification_queue(&mut self) -> Vec<MulticastNotification<In, InError>> {
+	pub(crate) fn drain_notification_queue(
+		&mut self,
+	) -> Vec<(usize, MulticastNotification<In, InError>)> {
 		self.deferred_notifications_queue
 			.drain(..)
 			.collect::<Vec<_>>()
@@ -363,6 +448,17 @@ where
 			|| self.observed_error.is_some()
 	}
 
+	/// What had closed the subject, including currently deferred notifications
+	pub(crate) fn observed_terminal(&self) -> MulticastTerminal<InError> {
+		if let Some(error) = &self.observed_error {
+			MulticastTerminal::Error(error.clone())
+		} else if self.observed_state.is_completed() {
+			MulticastTerminal::Complete
+		} else {
+			MulticastTerminal::Unsubscribe
+		}
+	}
+
 	/// Is actually closed, ignoring currently deferred notifications
 	pub(crate) fn is_closed_ignoring_deferred(&self) -> bool {
 		*self.closed_flag
@@ -393,6 +489,7 @@ where
 			observed_state: SubscriberState::default(),
 			observed_error: None,
 			deferred_notifications_queue: Vec::default(),
+			applying: None,
 		}
 	}
 }
diff --git a/crates/rx_core_subject_publish/src/publish_subject.rs b/crates/rx_core_subject_publish/src/publish_subject.rs
index b54aa8a..a281c21 100644
--- a/crates/rx_core_subject_publish/src/publish_subject.rs
+++ b/crates/rx_core_subject_publish/src/publish_subject.rs
@@ -110,27 +110,14 @@ where
 
 		let mut subscriber = destination.upgrade();
 
-		let (observed_error, is_completed) = {
+		let terminal = {
 			let state = self.deferred_state.lock_ignore_poison();
-			(
-				state.observed_error.clone(),
-				state.observed_state.is_completed(),
-			)
+			state.is_closed().then(|| state.observed_terminal())
 		};
 
-		if !subscriber.is_closed() {
-			if let Some(error) = observed_error {
-				subscriber.error(error);
-			} else if is_completed {
-				subscriber.complete();
-			}
-		}
-
-		if self.is_closed() {
-			// Subscribing to a closed subject could also cause a panic, but I prefer this
-			if !subscriber.is_closed() {
-				subscriber.unsubscribe();
-			}
+		// Subscribing to a closed subject could also cause a panic, but I prefer this
+		if let Some(terminal) = terminal {
+			terminal.send(&mut subscriber);
 			MulticastSubscription::new_closed(self.deferred_state.clone(), self.subscribers.clone())
 		} else {
 			let shared_subscriber = Arc::new(Mutex::new(subscriber));
@@ -139,13 +126,23 @@ where
 			let try_add_result = self.subscribers.try_add_subscriber(shared_subscriber);
 			let id = match try_add_result {
 				Ok(id) => id,
-				Err(add_subscriber_error) => {
-					self.deferred_state.lock_ignore_poison().defer_notification(
-						MulticastNotification::Add(
-							add_subscriber_error.id,
-							add_subscriber_error.subscriber,
-						),
-					);
+				Err(mut add_subscriber_error) => {
+					let terminal = {
+						let mut state = self.deferred_state.lock_ignore_poison();
+						if state.is_closed_ignoring_deferred() {
+							// Another thread closed the subject in the meantime
+							Some(state.observed_terminal())
+						} else {
+							state.defer_notification(MulticastNotification::Add(
+								add_subscriber_error.id,
+								add_subscriber_error.subscriber.clone(),
+							));
+							None
+						}
+					};
+					if let Some(terminal) = terminal {
+						terminal.send(&mut add_subscriber_error.subscriber);
+					}
 					add_subscriber_error.id
 				}
 			};
@@ -182,9 +179,16 @@ where
 	}
 
 	fn error(&mut self, error: Self::InError) {
-		if !self.is_closed() {
-			self.deferred_state.lock_ignore_poison().observed_error = Some(error.clone());
+		let is_first = {
+			let mut state = self.deferred_state.lock_ignore_poison();
+			let is_first = !state.is_closed();
+			if is_first {
+				state.observed_error = Some(error.clone());
+			}
+			is_first
+		};
 
+		if is_first {
 			if let Err(error_error) = self.subscribers.try_error(error) {
 				self.deferred_state
 					.lock_ignore_poison()
@@ -196,12 +200,16 @@ where
 	}
 
 	fn complete(&mut self) {
-		if !self.is_closed() {
-			self.deferred_state
-				.lock_ignore_poison()
-				.observed_state
-				.complete();
+		let is_first = {
+			let mut state = self.deferred_state.lock_ignore_poison();
+			let is_first = !state.is_closed();
+			if is_first {
+				state.observed_state.complete();
+			}
+			is_first
+		};
 
+		if is_first {
 			if let Err(_complete_error) = self.subscribers.try_complete() {
 				self.deferred_state
 					.lock_ignore_poison()
-- 
2.43.0


From 004871a763267f1cdd74ddfa5dc040f337b03880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:13 +0000
Subject: [PATCH 43/47] fix: SharedSubscription does not miss an unsubscription
 while another thread is using it

---
 .../src/subscriptions/subscription_shared.rs  | 67 ++++++++++++++++---
 1 file changed, 59 insertions(+), 8 deletions(-)

diff --git a/crates/rx_core_common/src/subscriptions/subscription_shared.rs b/crates/rx_core_common/src/subscriptions/subscription_shared.rs
index 23bf075..2bec318 100644
--- a/crates/rx_core_common/src/subscriptions/subscription_shared.rs
+++ b/crates/rx_core_common/src/subscriptions/subscription_shared.rs
@@ -1,11 +1,14 @@
-use std::sync::{Arc, Mutex, MutexGuard};
+use std::{
+	sync::{Arc, Mutex, MutexGuard, TryLockError},
+	thread,
+};
 
 use rx_core_macro_subscription_derive::RxSubscription;
 
 use crate::{
 	LockWithPoisonBehavior, SubscriptionClosedFlag, SubscriptionData, SubscriptionLike,
 	SubscriptionLikePushNotificationExtention, SubscriptionNotification, SubscriptionWithTeardown,
-	TeardownCollectionExtension,
+	Teardown, TeardownCollection, TeardownCollectionExtension,
 };
 
 pub(crate) const SUBSCRIPTION_MAX_RECURSION_DEPTH: usize = 10;
@@ -88,7 +91,6 @@ impl Default for SubscriptionDeferredState {
 
 #[derive(RxSubscription, Default, Clone, Debug)]
 #[_rx_core_common_crate(crate)]
-#[rx_delegate_teardown_collection]
 #[rx_skip_unsubscribe_on_drop_impl] // It's shared
 pub struct SharedSubscription {
 	#[destination]
@@ -107,10 +109,25 @@ impl SharedSubscription {
 		shared_subscription
 	}
 
-	fn try_apply_deferred(&mut self) {
-		if self.deferred_state.lock_ignore_poison().is_dirty()
-			&& let Ok(mut subscription) = self.subscription.try_lock()
-		{
+	/// Applies the deferred notifications unless another call is holding the
+	/// subscription, in which case that one will. Once the subscription is
+	/// released it is checked again, another thread could have deferred
+	/// something in the meantime.
+	fn try_apply_deferred(&self) {
+		loop {
+			let mut subscription = {
+				let state = self.deferred_state.lock_ignore_poison();
+
+				if !state.is_dirty() {
+					return;
+				}
+
+				match self.subscription.try_lock() {
+					Ok(subscription) => subscription,
+					Err(_) => return,
+				}
+			};
+
 			SharedSubscription::apply_notification_queue(
 				self.deferred_state.clone(),
 				&mut subscription,
@@ -181,7 +198,11 @@ impl SharedSubscription {
 
 impl SubscriptionLike for SharedSubscription {
 	fn is_closed(&self) -> bool {
-		self.deferred_state.lock_ignore_poison().is_closed()
+		// Held only together with the state, so that nothing has to be deferred
+		// because of it
+		let state = self.deferred_state.lock_ignore_poison();
+
+		state.is_closed()
 			|| self
 				.subscription
 				.try_lock()
@@ -209,6 +230,36 @@ impl SubscriptionLike for SharedSubscription {
 	}
 }
 
+impl TeardownCollection for SharedSubscription {
+	fn add_teardown(&mut self, teardown: Teardown) {
+		loop {
+			// Held only together with the state, so that nothing has to be
+			// deferred because of it
+			let state = self.deferred_state.lock_ignore_poison();
+
+			match self.subscription.try_lock() {
+				Ok(mut subscription) => {
+					if !subscription.is_closed() {
+						subscription.add_teardown(teardown);
+						return;
+					}
+				}
+				Err(TryLockError::WouldBlock) => {
+					drop(state);
+					thread::yield_now();
+					continue;
+				}
+				Err(TryLockError::Poisoned(_)) => {}
+			}
+
+			break;
+		}
+
+		// Either closed or poisoned
+		self.subscription.add_teardown(teardown);
+	}
+}
+
 impl Drop for SharedSubscription {
 	fn drop(&mut self) {
 		// Don't do anything, it's shared
-- 
2.43.0


From b0a8c1097a0ff74fcd8870692e23427fb0a42e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:13 +0000
Subject: [PATCH 44/47] fix: inner observables ending on several threads at
 once neither panic nor skip the completion

---
 .../src/higher_order_subscriber_inner.rs      | 28 +++++++++++++++----
 .../src/higher_order_subscriber_state.rs      |  8 +-----
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/crates/rx_core_subscriber_higher_order/src/higher_order_subscriber_inner.rs b/crates/rx_core_subscriber_higher_order/src/higher_order_subscriber_inner.rs
index f84a9a1..64b6479 100644
--- a/crates/rx_core_subscriber_higher_order/src/higher_order_subscriber_inner.rs
+++ b/crates/rx_core_subscriber_higher_order/src/higher_order_subscriber_inner.rs
@@ -84,8 +84,18 @@ where
 		if !self.is_closed() {
 			// While a nested terminal notification is still deferred, there can't be another
 			if !self.shared_destination.is_closed() {
-				self.state.lock_ignore_poison().downstream_error();
-				self.shared_destination.error(error);
+				// Another inner could have closed it on another thread
+				let is_first = {
+					let mut state = self.state.lock_ignore_poison();
+					let is_first = !state.downstream_subscriber_state.is_closed();
+					if is_first {
+						state.downstream_error();
+					}
+					is_first
+				};
+				if is_first {
+					self.shared_destination.error(error);
+				}
 			}
 			self.unsubscribe();
 		}
@@ -98,12 +108,20 @@ where
 				on_complete(self.key);
 			}
 
-			if self
+			let downstream_can_complete = self
 				.state
 				.lock_ignore_poison()
-				.inner_completed_can_downstream()
-			{
+				.inner_completed_can_downstream();
+
+			if downstream_can_complete {
 				self.shared_destination.complete();
+
+				// Only once it's sent, another inner that is just unsubscribing
+				// on another thread would unsubscribe a completed downstream
+				let mut state = self.state.lock_ignore_poison();
+				if !state.downstream_subscriber_state.is_closed() {
+					state.downstream_subscriber_state.complete();
+				}
 			}
 
 			self.unsubscribe();
diff --git a/crates/rx_core_subscriber_higher_order/src/higher_order_subscriber_state.rs b/crates/rx_core_subscriber_higher_order/src/higher_order_subscriber_state.rs
index 827bcac..352965c 100644
--- a/crates/rx_core_subscriber_higher_order/src/higher_order_subscriber_state.rs
+++ b/crates/rx_core_subscriber_higher_order/src/higher_order_subscriber_state.rs
@@ -78,13 +78,7 @@ where
 	pub(crate) fn inner_completed_can_downstream(&mut self) -> bool {
 		self.non_completed_subscriptions -= 1;
 
-		let downstream_can_complete = self.can_downstream_complete();
-
-		if downstream_can_complete {
-			self.downstream_subscriber_state.complete();
-		}
-
-		downstream_can_complete
+		self.can_downstream_complete()
 	}
 
 	pub(crate) fn inner_unsubscribed_and_downstream_is_not_yet_unsubscribed(
-- 
2.43.0


From a4481cbd17a09e1bef206edfe9ddc2b6b8157dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:07 +0000
Subject: [PATCH 45/47] fix: a concurrent higher-order subscriber does not drop
 its queue while its state is locked

---
 .../src/concurrent_subscriber.rs              | 12 +++++++----
 .../src/concurrent_subscriber_queue.rs        | 21 +++++++++++++++++--
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs b/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
index 382985c..c1ab31d 100644
--- a/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
+++ b/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
@@ -48,12 +48,14 @@ where
 		let state_on_unsubscribe = state.clone();
 
 		outer_teardown.add_fn(move || {
-			{
-				// Nothing that is still queued may be subscribed to anymore
+			// Nothing that is still queued may be subscribed to anymore
+			let discarded = {
 				let mut state = state_on_unsubscribe.lock_ignore_poison();
-				state.state.queue.clear();
 				state.upstream_subscriber_state.unsubscribe_if_not_already();
-			}
+				state.state.discard_queue();
+				state.state.take_discarded()
+			};
+			drop(discarded);
 
 			let inner_subscriptions = inner_subscriptions_on_unsubscribe
 				.lock_ignore_poison()
@@ -178,7 +180,9 @@ pub(crate) fn create_inner_subscription<InnerObservable, Destination>(
 			let can_unsubscribe = state_lock.can_downstream_unsubscribe();
 			let upstream_errored = state_lock.upstream_subscriber_state.is_errored();
 			let downstream_errored = state_lock.downstream_subscriber_state.is_errored();
+			let discarded = state_lock.state.take_discarded();
 			drop(state_lock);
+			drop(discarded);
 
 			if can_unsubscribe && !upstream_errored && !downstream_errored {
 				shared_destination_on_unsubscribe.unsubscribe();
diff --git a/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber_queue.rs b/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber_queue.rs
index 1570632..736f3bf 100644
--- a/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber_queue.rs
+++ b/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber_queue.rs
@@ -10,6 +10,23 @@ where
 	InnerObservable: Observable,
 {
 	pub(crate) queue: VecDeque<InnerObservable>,
+	/// No longer to be subscribed to. Dropping them can notify, so that must
+	/// not happen while the state is locked.
+	pub(crate) discarded: VecDeque<InnerObservable>,
+}
+
+impl<InnerObservable> ConcurrentSubscriberQueue<InnerObservable>
+where
+	InnerObservable: Observable,
+{
+	pub(crate) fn discard_queue(&mut self) {
+		self.discarded.append(&mut self.queue);
+	}
+
+	/// To be dropped once the state is no longer locked.
+	pub(crate) fn take_discarded(&mut self) -> VecDeque<InnerObservable> {
+		std::mem::take(&mut self.discarded)
+	}
 }
 
 impl<InnerObservable> HigherOrderSubscriberStateConditions
@@ -29,11 +46,11 @@ where
 
 	#[inline]
 	fn on_upstream_error(&mut self) {
-		self.queue.drain(..);
+		self.discard_queue();
 	}
 
 	#[inline]
 	fn on_downstream_error(&mut self) {
-		self.queue.drain(..);
+		self.discard_queue();
 	}
 }
-- 
2.43.0


From 08d4010e3e407e67ade29fcdf2c1ee7abb1ea416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:53 +0000
Subject: [PATCH 46/47] fix: adsr emits nothing after an error or a completion,
 even if its destination stays open

---
 crates/rx_core_operator_adsr/src/adsr_subscriber.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/rx_core_operator_adsr/src/adsr_subscriber.rs b/crates/rx_core_operator_adsr/src/adsr_subscriber.rs
index 669b5b5..f921fbb 100644
--- a/crates/rx_core_operator_adsr/src/adsr_subscriber.rs
+++ b/crates/rx_core_operator_adsr/src/adsr_subscriber.rs
@@ -149,11 +149,13 @@ where
 
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
+		self.scheduler.lock().cancel(self.cancellation_id);
 		self.shared_destination.error(error);
 	}
 
 	#[inline]
 	fn complete(&mut self) {
+		self.scheduler.lock().cancel(self.cancellation_id);
 		self.shared_destination.complete();
 	}
 }
-- 
2.43.0


From daaa9ac5791f00440b91dd10c4956aed167dd1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:53 +0000
Subject: [PATCH 47/47] fix: observe_on drops its pending values on an error,
 even if its destination stays open

---
 crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs b/crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs
index 19c255e..62af570 100644
--- a/crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs
+++ b/crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs
@@ -97,6 +97,8 @@ where
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
 		self.upstream_unsubscribed.store(true, Ordering::Relaxed);
+		self.scheduled_work_counter.store(0, Ordering::Relaxed);
+		self.scheduler.lock().cancel(self.cancellation_id);
 		self.destination.error(error);
 	}
 
-- 
2.43.0

