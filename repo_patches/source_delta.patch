From d877a3946898c829207075a8331ed0634c092587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:22 +0000
Subject: [PATCH 01/29] fix: view cache: store changes, their events and
 handler registration atomically

---
 pkg/cache/delegating_view_cache.go |   1 +
 pkg/cache/view_cache.go            | 130 +++++++++++++----------------
 pkg/cache/view_cache_informer.go   |  18 ++--
 3 files changed, 74 insertions(+), 75 deletions(-)

diff --git a/pkg/cache/delegating_view_cache.go b/pkg/cache/delegating_view_cache.go
index 4959b91..4dee388 100644
--- a/pkg/cache/delegating_view_cache.go
+++ b/pkg/cache/delegating_view_cache.go
@@ -123,6 +123,7 @@ func (d *DelegatingViewCache) registerInformerForKind(gvk schema.GroupVersionKin
 	// Create a local informer wrapping the shared indexer
 	// Multiple operators create their own informers, but they all wrap the same shared indexer
 	informer := NewViewCacheInformer(gvk, indexer, d.log)
+	informer.storeMu = &d.storage.writeMu
 	d.informers[gvk] = informer
 
 	// Register with shared storage so it can propagate events to this informer
diff --git a/pkg/cache/view_cache.go b/pkg/cache/view_cache.go
index ce8d5e6..5646cc3 100644
--- a/pkg/cache/view_cache.go
+++ b/pkg/cache/view_cache.go
@@ -31,6 +31,10 @@ const DefaultWatchChannelBuffer = 256
 // per each GVK that can be stored in the cache. ViewCache is now operator-agnostic and can store
 // views from any operator.
 type ViewCache struct {
+	// writeMu makes each change atomic with the distribution of its event and with the
+	// registration of event handlers, so that handlers see changes in the order they are
+	// stored, each exactly once. It must be taken before any other lock.
+	writeMu   sync.Mutex
 	mu        sync.RWMutex
 	caches    map[schema.GroupVersionKind]toolscache.Indexer
 	informers map[schema.GroupVersionKind]*ViewCacheInformer
@@ -134,6 +138,7 @@ func (c *ViewCache) RegisterInformerForKind(gvk schema.GroupVersionKind) error {
 	}
 
 	informer := NewViewCacheInformer(gvk, cache, c.log)
+	informer.storeMu = &c.writeMu
 	c.informers[gvk] = informer
 
 	return nil
@@ -151,7 +156,10 @@ func (c *ViewCache) RegisterDelegatingInformer(gvk schema.GroupVersionKind, info
 	c.mu.Lock()
 	defer c.mu.Unlock()
 
-	c.delegatingInformers[gvk] = append(c.delegatingInformers[gvk], informer)
+	// Copy on write: event distribution iterates the list without holding the lock.
+	informers := make([]*ViewCacheInformer, 0, len(c.delegatingInformers[gvk])+1)
+	informers = append(informers, c.delegatingInformers[gvk]...)
+	c.delegatingInformers[gvk] = append(informers, informer)
 
 	return nil
 }
@@ -167,15 +175,14 @@ func (c *ViewCache) UnregisterDelegatingInformer(gvk schema.GroupVersionKind, in
 	c.mu.Lock()
 	defer c.mu.Unlock()
 
-	informers := c.delegatingInformers[gvk]
-	for i, inf := range informers {
-		if inf == informer {
-			// Remove by replacing with last element and truncating
-			c.delegatingInformers[gvk][i] = c.delegatingInformers[gvk][len(c.delegatingInformers[gvk])-1]
-			c.delegatingInformers[gvk] = c.delegatingInformers[gvk][:len(c.delegatingInformers[gvk])-1]
-			break
+	// Copy on write: event distribution iterates the list without holding the lock.
+	informers := make([]*ViewCacheInformer, 0, len(c.delegatingInformers[gvk]))
+	for _, inf := range c.delegatingInformers[gvk] {
+		if inf != informer {
+			informers = append(informers, inf)
 		}
 	}
+	c.delegatingInformers[gvk] = informers
 
 	return nil
 }
@@ -221,12 +228,32 @@ func (c *ViewCache) GetInformerForKind(ctx context.Context, gvk schema.GroupVers
 func (c *ViewCache) RemoveInformer(ctx context.Context, obj client.Object) error {
 	gvk := obj.GetObjectKind().GroupVersionKind()
 
+	c.mu.Lock()
+	defer c.mu.Unlock()
+
+	delete(c.informers, gvk)
+
+	return nil
+}
+
+// distribute sends an event to the shared informer and to all delegating informers. The caller must
+// hold the write lock.
+func (c *ViewCache) distribute(gvk schema.GroupVersionKind, eventType toolscache.DeltaType, oldObj, newObj object.Object) error {
+	informer, err := c.GetInformerForKind(context.Background(), gvk)
+	if err != nil {
+		return err
+	}
+
+	// Trigger event on shared informer
+	informer.(*ViewCacheInformer).TriggerEvent(eventType, oldObj, newObj, false)
+
+	// Also trigger event on all delegating informers
 	c.mu.RLock()
-	_, exists := c.informers[gvk]
+	delegatingInfs := c.delegatingInformers[gvk]
 	c.mu.RUnlock()
 
-	if exists {
-		delete(c.informers, gvk)
+	for _, dinf := range delegatingInfs {
+		dinf.TriggerEvent(eventType, oldObj, newObj, false)
 	}
 
 	return nil
@@ -254,29 +281,15 @@ func (c *ViewCache) Add(obj object.Object) error {
 	// Make sure to have a valid UID.
 	object.WithUID(obj)
 
+	c.writeMu.Lock()
+	defer c.writeMu.Unlock()
+
 	// Add object to the cache.
 	if err := cache.Add(obj); err != nil {
 		return err
 	}
 
-	informer, err := c.GetInformerForKind(context.Background(), gvk)
-	if err != nil {
-		return err
-	}
-
-	// Trigger event on shared informer
-	informer.(*ViewCacheInformer).TriggerEvent(toolscache.Added, nil, obj, false)
-
-	// Also trigger event on all delegating informers
-	c.mu.RLock()
-	delegatingInfs := c.delegatingInformers[gvk]
-	c.mu.RUnlock()
-
-	for _, dinf := range delegatingInfs {
-		dinf.TriggerEvent(toolscache.Added, nil, obj, false)
-	}
-
-	return nil
+	return c.distribute(gvk, toolscache.Added, nil, obj)
 }
 
 // Update modifies the object stored in the cache.
@@ -292,6 +305,19 @@ func (c *ViewCache) Update(oldObj, newObj object.Object) error {
 		return fmt.Errorf("not a view GVK: %s", gvk)
 	}
 
+	cache, err := c.GetCacheForKind(gvk)
+	if err != nil {
+		return err
+	}
+
+	c.writeMu.Lock()
+	defer c.writeMu.Unlock()
+
+	return c.update(cache, gvk, oldObj, newObj)
+}
+
+// update stores the new version of an object. The caller must hold the write lock.
+func (c *ViewCache) update(cache toolscache.Indexer, gvk schema.GroupVersionKind, oldObj, newObj object.Object) error {
 	if object.DeepEqual(oldObj, newObj) {
 		c.log.V(4).Info("update: suppressing object update", "gvk", gvk,
 			"key", client.ObjectKeyFromObject(newObj).String())
@@ -301,33 +327,11 @@ func (c *ViewCache) Update(oldObj, newObj object.Object) error {
 	c.log.V(5).Info("update", "gvk", gvk, "key", client.ObjectKeyFromObject(newObj).String(),
 		"object", object.Dump(newObj))
 
-	cache, err := c.GetCacheForKind(gvk)
-	if err != nil {
-		return err
-	}
-
 	if err := cache.Update(newObj); err != nil {
 		return err
 	}
 
-	informer, err := c.GetInformerForKind(context.Background(), gvk)
-	if err != nil {
-		return err
-	}
-
-	// Trigger event on shared informer
-	informer.(*ViewCacheInformer).TriggerEvent(toolscache.Updated, oldObj, newObj, false)
-
-	// Also trigger event on all delegating informers
-	c.mu.RLock()
-	delegatingInfs := c.delegatingInformers[gvk]
-	c.mu.RUnlock()
-
-	for _, dinf := range delegatingInfs {
-		dinf.TriggerEvent(toolscache.Updated, oldObj, newObj, false)
-	}
-
-	return nil
+	return c.distribute(gvk, toolscache.Updated, oldObj, newObj)
 }
 
 // Delete removes an object from the cache.
@@ -356,6 +360,9 @@ func (c *ViewCache) Delete(obj object.Object) error {
 		return err
 	}
 
+	c.writeMu.Lock()
+	defer c.writeMu.Unlock()
+
 	existingObj, exists, err := cache.GetByKey(key)
 	if err != nil {
 		return err
@@ -371,24 +378,7 @@ func (c *ViewCache) Delete(obj object.Object) error {
 		return err
 	}
 
-	informer, err := c.GetInformerForKind(context.Background(), gvk)
-	if err != nil {
-		return err
-	}
-
-	// Trigger event on shared informer
-	informer.(*ViewCacheInformer).TriggerEvent(toolscache.Deleted, nil, existingObj.(object.Object), false)
-
-	// Also trigger event on all delegating informers
-	c.mu.RLock()
-	delegatingInfs := c.delegatingInformers[gvk]
-	c.mu.RUnlock()
-
-	for _, dinf := range delegatingInfs {
-		dinf.TriggerEvent(toolscache.Deleted, nil, existingObj.(object.Object), false)
-	}
-
-	return nil
+	return c.distribute(gvk, toolscache.Deleted, nil, existingObj.(object.Object))
 }
 
 // IndexField adds an index with the given field name on the given object type.
diff --git a/pkg/cache/view_cache_informer.go b/pkg/cache/view_cache_informer.go
index 0e6bde1..fe3ec59 100644
--- a/pkg/cache/view_cache_informer.go
+++ b/pkg/cache/view_cache_informer.go
@@ -25,6 +25,7 @@ type ViewCacheInformer struct {
 	handlers       map[int64]handlerEntry
 	handlerCounter int64
 	mutex          sync.RWMutex
+	storeMu        *sync.Mutex // taken before mutex, held by the owner of the store during changes
 	transform      toolscache.TransformFunc
 	stopped        atomic.Bool
 	log            logr.Logger
@@ -59,6 +60,12 @@ func NewViewCacheInformer(gvk schema.GroupVersionKind, indexer toolscache.Indexe
 
 // AddEventHandler adds an event handler to the shared informer.
 func (c *ViewCacheInformer) AddEventHandler(handler toolscache.ResourceEventHandler) (toolscache.ResourceEventHandlerRegistration, error) {
+	// Make sure no object changes between registering the handler and sending the initial list.
+	if c.storeMu != nil {
+		c.storeMu.Lock()
+		defer c.storeMu.Unlock()
+	}
+
 	c.mutex.Lock()
 
 	id := atomic.AddInt64(&c.handlerCounter, 1)
@@ -67,6 +74,7 @@ func (c *ViewCacheInformer) AddEventHandler(handler toolscache.ResourceEventHand
 		id:                   id,
 	}
 	c.handlers[id] = he
+	transform := c.transform
 	c.mutex.Unlock()
 
 	c.log.V(4).Info("registering event handler: sending initial object list", "handler-id", id,
@@ -81,9 +89,9 @@ func (c *ViewCacheInformer) AddEventHandler(handler toolscache.ResourceEventHand
 
 		// Apply transform if needed (same logic as TriggerEvent)
 		newObj := obj
-		if c.transform != nil {
+		if transform != nil {
 			newObj = object.DeepCopy(newObj)
-			item, err := c.transform(newObj)
+			item, err := transform(newObj)
 			if err != nil {
 				c.log.Error(err, "Failed to transform object during initial sync")
 				continue
@@ -137,15 +145,15 @@ func (c *ViewCacheInformer) RemoveEventHandler(registration toolscache.ResourceE
 // isInitialList to true if event is an Added as a part of the initial object list. For all event
 // types except Update events the oldObj must not be nil.
 func (c *ViewCacheInformer) TriggerEvent(eventType toolscache.DeltaType, oldObj, newObj object.Object, isInitialList bool) {
+	c.mutex.RLock()
+	defer c.mutex.RUnlock()
+
 	if len(c.handlers) == 0 {
 		c.log.V(4).Info("suppressing event trigger: no handlers", "event", eventType,
 			"object", object.Dump(newObj))
 		return
 	}
 
-	c.mutex.RLock()
-	defer c.mutex.RUnlock()
-
 	c.log.V(8).Info("triggering event", "event", eventType, "object", object.Dump(newObj),
 		"isInitial", isInitialList)
 
-- 
2.43.0


From 325533afa5ddcb16b18e2d10f2e9324e8b5d3593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:22 +0000
Subject: [PATCH 02/29] fix: view client: make update and patch atomic
 read-modify-write operations

---
 pkg/cache/cache.go                 |  2 +
 pkg/cache/delegating_view_cache.go |  5 ++
 pkg/cache/view_cache.go            | 38 ++++++++++++++
 pkg/cache/view_client.go           | 84 ++++++++++--------------------
 4 files changed, 73 insertions(+), 56 deletions(-)

diff --git a/pkg/cache/cache.go b/pkg/cache/cache.go
index 42bd935..123ecfa 100644
--- a/pkg/cache/cache.go
+++ b/pkg/cache/cache.go
@@ -31,6 +31,8 @@ type ViewCacheInterface interface {
 	Add(obj object.Object) error
 	// Update updates an object in the cache.
 	Update(oldObj, newObj object.Object) error
+	// Modify atomically replaces an object with the result of a function on its current version.
+	Modify(obj object.Object, f func(current object.Object) (object.Object, error)) error
 	// Delete removes an object from the cache.
 	Delete(obj object.Object) error
 	// Watch watches for changes to objects.
diff --git a/pkg/cache/delegating_view_cache.go b/pkg/cache/delegating_view_cache.go
index 4dee388..626b3cd 100644
--- a/pkg/cache/delegating_view_cache.go
+++ b/pkg/cache/delegating_view_cache.go
@@ -303,3 +303,8 @@ func (d *DelegatingViewCache) Delete(obj object.Object) error {
 	// Delegate to shared storage
 	return d.storage.Delete(obj)
 }
+
+// Modify delegates the atomic update of an object to the shared storage.
+func (d *DelegatingViewCache) Modify(obj object.Object, f func(current object.Object) (object.Object, error)) error {
+	return d.storage.Modify(obj, f)
+}
diff --git a/pkg/cache/view_cache.go b/pkg/cache/view_cache.go
index 5646cc3..c7c1b83 100644
--- a/pkg/cache/view_cache.go
+++ b/pkg/cache/view_cache.go
@@ -316,6 +316,44 @@ func (c *ViewCache) Update(oldObj, newObj object.Object) error {
 	return c.update(cache, gvk, oldObj, newObj)
 }
 
+// Modify atomically replaces the stored version of an object with the result of the given function
+// called on a copy of that version.
+func (c *ViewCache) Modify(obj object.Object, f func(current object.Object) (object.Object, error)) error {
+	gvk := obj.GetObjectKind().GroupVersionKind()
+	if !viewv1a1.IsViewKind(gvk) {
+		return fmt.Errorf("not a view GVK: %s", gvk)
+	}
+
+	cache, err := c.GetCacheForKind(gvk)
+	if err != nil {
+		return err
+	}
+
+	c.writeMu.Lock()
+	defer c.writeMu.Unlock()
+
+	key := client.ObjectKeyFromObject(obj)
+	item, exists, err := cache.GetByKey(clientKeyToCacheKey(key).String())
+	if err != nil {
+		return err
+	}
+	if !exists {
+		return apierrors.NewNotFound(schema.GroupResource{Group: gvk.Group, Resource: gvk.Kind}, key.String())
+	}
+	oldObj := object.DeepCopy(item.(object.Object))
+
+	newObj, err := f(object.DeepCopy(oldObj))
+	if err != nil {
+		return err
+	}
+
+	// The cache does not apply deepcopy to stored objects.
+	newObj = object.DeepCopy(newObj)
+	object.WithUID(newObj)
+
+	return c.update(cache, gvk, oldObj, newObj)
+}
+
 // update stores the new version of an object. The caller must hold the write lock.
 func (c *ViewCache) update(cache toolscache.Indexer, gvk schema.GroupVersionKind, oldObj, newObj object.Object) error {
 	if object.DeepEqual(oldObj, newObj) {
diff --git a/pkg/cache/view_client.go b/pkg/cache/view_client.go
index 88dc34c..7bd94ee 100644
--- a/pkg/cache/view_client.go
+++ b/pkg/cache/view_client.go
@@ -4,7 +4,6 @@ import (
 	"context"
 	"errors"
 	"fmt"
-	"reflect"
 
 	"k8s.io/apimachinery/pkg/api/meta"
 	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
@@ -82,25 +81,14 @@ func (c *ViewCacheClient) Update(ctx context.Context, obj client.Object, opts ..
 		return fmt.Errorf("object must implement object.Object interface")
 	}
 
-	// For updates, we need to get the old object first
-	oldObj := object.NewViewObject(object.GetOperator(newObj), newObj.GetKind())
-	object.SetName(oldObj, newObj.GetNamespace(), newObj.GetName())
-
-	// Get the current version from cache
-	if err := c.cache.Get(ctx, client.ObjectKeyFromObject(newObj), oldObj); err != nil {
-		return fmt.Errorf("cannot update object with key %s: %w", client.ObjectKeyFromObject(newObj), err)
-	}
-
-	// Option 3: DeepEqual check is safe here for view objects.
 	// View objects are ephemeral in-memory objects without etcd-based optimistic concurrency
-	// control, so there's no resourceVersion staleness to mask. The cache.Update() call
-	// already has a DeepEqual check (line 295 in view_cache.go), but checking here avoids
-	// unnecessary work when content hasn't changed.
-	if object.DeepEqual(oldObj, newObj) {
-		return nil
+	// control, so there's no resourceVersion to check. Unchanged objects are not updated.
+	err := c.cache.Modify(newObj, func(_ object.Object) (object.Object, error) { return newObj, nil })
+	if err != nil {
+		return fmt.Errorf("cannot update object with key %s: %w", client.ObjectKeyFromObject(newObj), err)
 	}
 
-	return c.cache.Update(oldObj, newObj)
+	return nil
 }
 
 // Patch patches the given obj in the ViewCache. Note that obj is NOT updated to the new content.
@@ -110,12 +98,6 @@ func (c *ViewCacheClient) Patch(ctx context.Context, obj client.Object, patch cl
 		return errors.New("object must be an object.Object")
 	}
 
-	// Get current object
-	current := object.NewViewObject(object.GetOperator(o), o.GetKind())
-	if err := c.cache.Get(ctx, client.ObjectKeyFromObject(obj), current); err != nil {
-		return fmt.Errorf("cannot patch object with key %s: %w", client.ObjectKeyFromObject(obj), err)
-	}
-
 	// strategic merge patch not supported in views, falling back to merge-patch
 	j, err := patch.Data(obj)
 	if err != nil {
@@ -127,12 +109,17 @@ func (c *ViewCacheClient) Patch(ctx context.Context, obj client.Object, patch cl
 		return fmt.Errorf("cannot parse JSON patch: %w", err)
 	}
 
-	newObj := object.DeepCopy(current)
-	if err := object.Patch(newObj, newContent); err != nil {
-		return err
+	err = c.cache.Modify(o, func(current object.Object) (object.Object, error) {
+		if err := object.Patch(current, newContent); err != nil {
+			return nil, err
+		}
+		return current, nil
+	})
+	if err != nil {
+		return fmt.Errorf("cannot patch object with key %s: %w", client.ObjectKeyFromObject(obj), err)
 	}
 
-	return c.cache.Update(current, newObj)
+	return nil
 }
 
 // DeleteAllOf deletes all objects of the given type matching the given options.
@@ -278,16 +265,12 @@ func (sr *viewSubResourceClient) Create(ctx context.Context, obj client.Object,
 		return errors.New("no status sub-resource in object argument")
 	}
 
-	current := object.NewViewObject(object.GetOperator(o), o.GetKind())
-	if err := sr.client.Get(ctx, client.ObjectKeyFromObject(obj), current); err != nil {
-		return err
-	}
-
-	if err := unstructured.SetNestedMap(current.UnstructuredContent(), sub, sr.subres); err != nil {
-		return fmt.Errorf("failed to set sub-resource %s to sub-resource: %w", sr.subres, err)
-	}
-
-	return sr.client.Update(ctx, current)
+	return sr.client.cache.Modify(o, func(current object.Object) (object.Object, error) {
+		if err := unstructured.SetNestedMap(current.UnstructuredContent(), sub, sr.subres); err != nil {
+			return nil, fmt.Errorf("failed to set sub-resource %s to sub-resource: %w", sr.subres, err)
+		}
+		return current, nil
+	})
 }
 
 // Update updates the subresource for the given object.
@@ -297,11 +280,6 @@ func (sr *viewSubResourceClient) Update(ctx context.Context, obj client.Object,
 		return errors.New("object must be an object.Object")
 	}
 
-	current := object.NewViewObject(object.GetOperator(o), o.GetKind())
-	if err := sr.client.Get(ctx, client.ObjectKeyFromObject(obj), current); err != nil {
-		return err
-	}
-
 	sub, ok, err := unstructured.NestedMap(o.UnstructuredContent(), sr.subres)
 	if err != nil {
 		return fmt.Errorf("cannot load %s sub-resource: %w", sr.subres, err)
@@ -309,20 +287,14 @@ func (sr *viewSubResourceClient) Update(ctx context.Context, obj client.Object,
 		return errors.New("no status sub-resource in object argument")
 	}
 
-	// Option 2: Check if the subresource actually changed before updating.
-	// This prevents triggering watch events when the status hasn't changed.
-	currentSub, currentHasSub, _ := unstructured.NestedMap(current.UnstructuredContent(), sr.subres)
-	if currentHasSub && reflect.DeepEqual(currentSub, sub) {
-		// Subresource unchanged, skip the update
-		return nil
-	}
-
-	if err := unstructured.SetNestedMap(current.UnstructuredContent(), sub, sr.subres); err != nil {
-		return fmt.Errorf("cannot set sub-resource %s: %w", sr.subres, err)
-	}
-
-	// For ViewCache, status is just part of the object - update the whole object
-	return sr.client.Update(ctx, current)
+	// For ViewCache, status is just part of the object - update the whole object. An unchanged
+	// subresource does not trigger a watch event.
+	return sr.client.cache.Modify(o, func(current object.Object) (object.Object, error) {
+		if err := unstructured.SetNestedMap(current.UnstructuredContent(), sub, sr.subres); err != nil {
+			return nil, fmt.Errorf("cannot set sub-resource %s: %w", sr.subres, err)
+		}
+		return current, nil
+	})
 }
 
 // Patch patches the subresource for the given object.
-- 
2.43.0


From 3fe7d40f2bf7d29858d7ae75668e2ce06430c9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:39 +0000
Subject: [PATCH 03/29] fix: view watch: never drop events, report objects that
 cease to match, stop cleanly

---
 pkg/cache/view_cache.go          | 61 ++++++++++++++++++++++++++------
 pkg/cache/view_cache_informer.go |  6 +++-
 2 files changed, 56 insertions(+), 11 deletions(-)

diff --git a/pkg/cache/view_cache.go b/pkg/cache/view_cache.go
index c7c1b83..edfe444 100644
--- a/pkg/cache/view_cache.go
+++ b/pkg/cache/view_cache.go
@@ -5,7 +5,6 @@ import (
 	"errors"
 	"fmt"
 	"sync"
-	"time"
 
 	"github.com/go-logr/logr"
 	apierrors "k8s.io/apimachinery/pkg/api/errors"
@@ -356,6 +355,13 @@ func (c *ViewCache) Modify(obj object.Object, f func(current object.Object) (obj
 
 // update stores the new version of an object. The caller must hold the write lock.
 func (c *ViewCache) update(cache toolscache.Indexer, gvk schema.GroupVersionKind, oldObj, newObj object.Object) error {
+	// What counts is the stored version: the one known to the caller may be out of date.
+	if item, exists, err := cache.Get(newObj); err != nil {
+		return err
+	} else if exists {
+		oldObj = item.(object.Object)
+	}
+
 	if object.DeepEqual(oldObj, newObj) {
 		c.log.V(4).Info("update: suppressing object update", "gvk", gvk,
 			"key", client.ObjectKeyFromObject(newObj).String())
@@ -608,6 +614,7 @@ func (c *ViewCache) Watch(ctx context.Context, list client.ObjectList, opts ...c
 	watcher := &ViewCacheWatcher{
 		eventChan:     make(chan watch.Event, DefaultWatchChannelBuffer),
 		stopCh:        make(chan struct{}),
+		wakeCh:        make(chan struct{}, 1),
 		labelSelector: labelSelector,
 		fieldSelector: fieldSelector,
 		namespace:     namespace,
@@ -624,6 +631,9 @@ func (c *ViewCache) Watch(ctx context.Context, list client.ObjectList, opts ...c
 			// Check if object matches selectors after update
 			if watcher.shouldIncludeObject(newObj) {
 				watcher.sendEvent(watch.Modified, newObj)
+			} else if watcher.shouldIncludeObject(oldObj) {
+				// The object ceased to match
+				watcher.sendEvent(watch.Deleted, newObj)
 			}
 		},
 		DeleteFunc: func(obj any) {
@@ -640,8 +650,13 @@ func (c *ViewCache) Watch(ctx context.Context, list client.ObjectList, opts ...c
 		return nil, fmt.Errorf("failed to add event handler: %w", err)
 	}
 
+	go watcher.run()
+
 	go func() {
-		<-ctx.Done()
+		select {
+		case <-ctx.Done():
+		case <-watcher.stopCh:
+		}
 
 		c.log.V(5).Info("stopping watcher", "gvk", objGVK.String())
 
@@ -678,7 +693,9 @@ var _ watch.Interface = &ViewCacheWatcher{}
 type ViewCacheWatcher struct {
 	eventChan chan watch.Event
 	stopCh    chan struct{}
+	wakeCh    chan struct{}
 	mutex     sync.Mutex
+	queue     []watch.Event // events not yet passed on to the reader
 	stopped   bool
 
 	labelSelector labels.Selector
@@ -734,7 +751,8 @@ func (w *ViewCacheWatcher) matchesFieldSelector(obj object.Object, selector fiel
 	return selector.Matches(fieldSet)
 }
 
-// sendEvent sends a watch event on the event channel.
+// sendEvent queues a watch event for the event channel. It never blocks: a slow reader must not hold
+// up those who change the views.
 func (w *ViewCacheWatcher) sendEvent(eventType watch.EventType, o any) {
 	obj, ok := o.(object.Object)
 	if !ok {
@@ -749,15 +767,38 @@ func (w *ViewCacheWatcher) sendEvent(eventType watch.EventType, o any) {
 		return
 	}
 
-	event := watch.Event{Type: eventType, Object: obj}
-
 	w.logger.V(8).Info("watcher sending object", "object", object.Dump(obj))
 
+	w.queue = append(w.queue, watch.Event{Type: eventType, Object: obj})
 	select {
-	case w.eventChan <- event:
-	case <-time.After(time.Second):
-		// If we can't send the event in 1 second, log and continue
-		w.logger.Info("failed to send event, channel might be full", "event", event)
+	case w.wakeCh <- struct{}{}:
+	default:
+	}
+}
+
+// run passes the queued events on to the event channel until the watcher is stopped.
+func (w *ViewCacheWatcher) run() {
+	defer close(w.eventChan)
+
+	for {
+		select {
+		case <-w.stopCh:
+			return
+		case <-w.wakeCh:
+		}
+
+		w.mutex.Lock()
+		events := w.queue
+		w.queue = nil
+		w.mutex.Unlock()
+
+		for _, event := range events {
+			select {
+			case <-w.stopCh:
+				return
+			case w.eventChan <- event:
+			}
+		}
 	}
 }
 
@@ -768,8 +809,8 @@ func (w *ViewCacheWatcher) Stop() {
 
 	if !w.stopped {
 		w.stopped = true
+		w.queue = nil
 		close(w.stopCh)
-		close(w.eventChan)
 	}
 }
 
diff --git a/pkg/cache/view_cache_informer.go b/pkg/cache/view_cache_informer.go
index fe3ec59..2407484 100644
--- a/pkg/cache/view_cache_informer.go
+++ b/pkg/cache/view_cache_informer.go
@@ -186,7 +186,11 @@ func (c *ViewCacheInformer) TriggerEvent(eventType toolscache.DeltaType, oldObj,
 			handler.OnAdd(object.DeepCopy(newObj), false)
 			events++
 		case toolscache.Updated:
-			handler.OnUpdate(oldObj, object.DeepCopy(newObj))
+			if oldObj == nil {
+				handler.OnUpdate(nil, object.DeepCopy(newObj))
+			} else {
+				handler.OnUpdate(object.DeepCopy(oldObj), object.DeepCopy(newObj))
+			}
 			events++
 		case toolscache.Deleted:
 			handler.OnDelete(object.DeepCopy(newObj))
-- 
2.43.0


From 67ee853e8ae36038218c525eb41550d97d0506a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:43 +0000
Subject: [PATCH 04/29] fix: targets: write the status of created objects,
 never overwrite concurrent changes, recreate objects that disappear

---
 pkg/reconciler/ctrlutils.go | 125 +++++++++++--------------
 pkg/reconciler/target.go    | 182 +++++++++++++++++-------------------
 2 files changed, 142 insertions(+), 165 deletions(-)

diff --git a/pkg/reconciler/ctrlutils.go b/pkg/reconciler/ctrlutils.go
index 27cf729..0653edb 100644
--- a/pkg/reconciler/ctrlutils.go
+++ b/pkg/reconciler/ctrlutils.go
@@ -7,7 +7,7 @@ import (
 	"github.com/l7mp/dcontroller/pkg/object"
 	apierrors "k8s.io/apimachinery/pkg/api/errors"
 	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
-	"k8s.io/client-go/util/retry"
+	"k8s.io/apimachinery/pkg/types"
 	"sigs.k8s.io/controller-runtime/pkg/client"
 	"sigs.k8s.io/controller-runtime/pkg/controller/controllerutil"
 
@@ -27,9 +27,8 @@ func isViewObject(obj client.Object) bool {
 //
 // It returns the executed operation and an error.
 //
-// Note: this version differs from default controllerutil.CreateOrUpdate in two ways:
-//   - it uses the unstructured API via object.Object
-//   - errors produced by the `Create` branch (after a failed `Get`) will be ignored
+// Note: this version differs from default controllerutil.CreateOrUpdate in that it uses the
+// unstructured API via object.Object.
 //
 // Status handling: For resources with status as a subresource (native Kubernetes objects like
 // Pods), client.Update() does NOT update status. This function saves the status before Update(),
@@ -37,21 +36,38 @@ func isViewObject(obj client.Object) bool {
 // (like view objects), this redundantly updates status twice but is harmless.
 func CreateOrUpdate(ctx context.Context, c client.Client, obj object.Object, f controllerutil.MutateFn) (controllerutil.OperationResult, error) {
 	key := client.ObjectKeyFromObject(obj)
-	if err := c.Get(ctx, key, obj); err != nil {
-		if !apierrors.IsNotFound(err) {
+	// An object that already has a resource version comes from the API server: no need to create.
+	err := c.Get(ctx, key, obj)
+	if err != nil && !apierrors.IsNotFound(err) {
+		return controllerutil.OperationResultNone, err
+	}
+	if err != nil && obj.GetResourceVersion() == "" {
+		if err := mutate(f, key, obj); err != nil {
 			return controllerutil.OperationResultNone, err
 		}
-		if err := mutate(f, key, obj); err != nil {
+
+		// Create may rewrite our status
+		newStatus, hasStatus, _ := unstructured.NestedMap(obj.UnstructuredContent(), "status")
+
+		err := c.Create(ctx, obj)
+		if err == nil {
+			if err := updateStatus(ctx, c, obj, newStatus, hasStatus); err != nil {
+				return controllerutil.OperationResultCreated, err
+			}
+			return controllerutil.OperationResultCreated, nil
+		}
+		if !apierrors.IsAlreadyExists(err) {
 			return controllerutil.OperationResultNone, err
 		}
-		if err := c.Create(ctx, obj); err != nil {
-			// this is not an error: default to the update branch
-			goto update
+
+		// The object exists but our cache does not know about it yet. Obtain the current
+		// version (an empty patch bypasses the cache) and default to the update branch: an
+		// update without having read the object would remove what others put there.
+		if err := c.Patch(ctx, obj, client.RawPatch(types.MergePatchType, []byte("{}"))); err != nil {
+			return controllerutil.OperationResultNone, err
 		}
-		return controllerutil.OperationResultCreated, nil
 	}
 
-update:
 	if err := mutate(f, key, obj); err != nil {
 		return controllerutil.OperationResultNone, err
 	}
@@ -63,23 +79,33 @@ update:
 		return controllerutil.OperationResultNone, err
 	}
 
-	// Option 1: Skip redundant status update for view objects.
-	// For view objects, client.Update() already updates the status field since views don't have
-	// status as a subresource. Calling Status().Update() would cause a second update, triggering
-	// duplicate watch events and potential reconciliation loops.
-	// For native Kubernetes objects, we still need the separate Status().Update() call since
-	// client.Update() ignores the status subresource.
-	if hasStatus && !isViewObject(obj) {
-		if err := unstructured.SetNestedMap(obj.UnstructuredContent(), newStatus, "status"); err == nil {
-			if err := c.Status().Update(ctx, obj); err != nil {
-				return controllerutil.OperationResultNone, err
-			}
-		}
+	if err := updateStatus(ctx, c, obj, newStatus, hasStatus); err != nil {
+		return controllerutil.OperationResultNone, err
 	}
 
 	return controllerutil.OperationResultUpdated, nil
 }
 
+// updateStatus writes the status of an object after the rest of the object has been written.
+//
+// Option 1: Skip redundant status update for view objects.
+// For view objects, client.Create() and client.Update() already write the status field since views
+// don't have status as a subresource. Calling Status().Update() would cause a second update,
+// triggering duplicate watch events and potential reconciliation loops.
+// For native Kubernetes objects, we still need the separate Status().Update() call since
+// client.Create() and client.Update() ignore the status subresource.
+func updateStatus(ctx context.Context, c client.Client, obj object.Object, status map[string]any, hasStatus bool) error {
+	if !hasStatus || isViewObject(obj) {
+		return nil
+	}
+
+	if err := unstructured.SetNestedMap(obj.UnstructuredContent(), status, "status"); err != nil {
+		return err
+	}
+
+	return c.Status().Update(ctx, obj)
+}
+
 // Update updates the given object in the Kubernetes cluster, including status if present.
 //
 // This function properly handles status updates for both:
@@ -91,56 +117,19 @@ update:
 // then restores and updates it via Status().Update(). For resources without status subresource
 // (like view objects), this redundantly updates status twice but is harmless.
 //
-// Conflict handling: Uses optimistic concurrency control with retry. On conflict, re-fetches
-// the latest object to get the fresh resourceVersion and retries the update with our desired state.
+// Conflict handling: Uses optimistic concurrency control. Conflicts are returned to the caller, who
+// must recompute the update from the latest version of the object: writing the same content with a
+// fresh resourceVersion would undo the changes made by others.
 func Update(ctx context.Context, c client.Client, obj object.Object) error {
 	// Save status before Update() because for resources with status as a subresource
 	// (native Kubernetes objects), client.Update() will clear the status field.
 	savedStatus, hasStatus, _ := unstructured.NestedMap(obj.UnstructuredContent(), "status")
-	key := client.ObjectKeyFromObject(obj)
-
-	// Track whether this is the first attempt (to avoid unnecessary Get on first try).
-	firstAttempt := true
-
-	return retry.RetryOnConflict(retry.DefaultRetry, func() error {
-		// On retry (not first attempt), re-fetch to get the fresh resourceVersion.
-		if !firstAttempt {
-			latest := object.New()
-			latest.SetGroupVersionKind(obj.GroupVersionKind())
-			latest.SetName(key.Name)
-			latest.SetNamespace(key.Namespace)
-			if err := c.Get(ctx, key, latest); err != nil {
-				return err
-			}
-
-			// Update the resourceVersion in our object to match the latest.
-			// Our object already has the complete desired state (spec, metadata, etc.),
-			// we just need the fresh resourceVersion for optimistic concurrency control.
-			obj.SetResourceVersion(latest.GetResourceVersion())
-		}
-		firstAttempt = false
 
-		if err := c.Update(ctx, obj); err != nil {
-			return err
-		}
-
-		// Restore and update status if it was present.
-		// Option 1: Skip redundant status update for view objects.
-		// For view objects, client.Update() already updates status since views don't have status
-		// as a subresource. Calling Status().Update() would cause a second update, triggering
-		// duplicate watch events and potential reconciliation loops.
-		// For native Kubernetes objects with status as a subresource: Update() cleared it, so we
-		// restore and update it separately.
-		if hasStatus && !isViewObject(obj) {
-			if err := unstructured.SetNestedMap(obj.UnstructuredContent(), savedStatus, "status"); err == nil {
-				if err := c.Status().Update(ctx, obj); err != nil {
-					return err
-				}
-			}
-		}
+	if err := c.Update(ctx, obj); err != nil {
+		return err
+	}
 
-		return nil
-	})
+	return updateStatus(ctx, c, obj, savedStatus, hasStatus)
 }
 
 func mutate(f controllerutil.MutateFn, key client.ObjectKey, obj client.Object) error {
diff --git a/pkg/reconciler/target.go b/pkg/reconciler/target.go
index c63e766..429b982 100644
--- a/pkg/reconciler/target.go
+++ b/pkg/reconciler/target.go
@@ -2,6 +2,7 @@ package reconciler
 
 import (
 	"context"
+	"encoding/json"
 	"errors"
 	"fmt"
 
@@ -9,6 +10,8 @@ import (
 	apierrors "k8s.io/apimachinery/pkg/api/errors"
 	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
 	"k8s.io/apimachinery/pkg/runtime/schema"
+	"k8s.io/apimachinery/pkg/types"
+	"k8s.io/client-go/util/retry"
 	"sigs.k8s.io/controller-runtime/pkg/client"
 
 	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
@@ -112,7 +115,7 @@ func (t *target) update(ctx context.Context, delta object.Delta) error {
 		// pipeline may be too difficult)
 		//
 		// Use our own CreateOrUpdate that will also update the status
-		res, err := CreateOrUpdate(context.TODO(), c, obj, func() error {
+		res, err := CreateOrUpdate(ctx, c, obj, func() error {
 			// remove stuff that's no longer there
 			for k := range obj.UnstructuredContent() {
 				if k == "metadata" {
@@ -146,14 +149,11 @@ func (t *target) update(ctx context.Context, delta object.Delta) error {
 			return nil
 		})
 
-		// NotFound errors are ignored: the object has disappeared while we were working in it
+		// NotFound errors mean that the object has disappeared while we were working in it:
+		// it must be recreated
 		if err != nil {
-			if !apierrors.IsNotFound(err) {
-				return fmt.Errorf("create/update resource %s failed with operation code %s: %w",
-					client.ObjectKeyFromObject(delta.Object).String(), res, err)
-			}
-			t.log.V(2).Info("add/upsert: object has disappeared (probably harmless)",
-				"event-type", delta.Type)
+			return fmt.Errorf("create/update resource %s failed with operation code %s: %w",
+				client.ObjectKeyFromObject(delta.Object).String(), res, err)
 		}
 
 	case object.Deleted:
@@ -181,59 +181,33 @@ func (t *target) patch(ctx context.Context, delta object.Delta, originalObject o
 
 	c := t.mgr.GetClient()
 
+	// Check if we can use the original object snapshot (same GVK, namespace, name)
+	var original object.Object
+	if originalObject != nil &&
+		originalObject.GroupVersionKind() == delta.Object.GroupVersionKind() &&
+		originalObject.GetNamespace() == delta.Object.GetNamespace() &&
+		originalObject.GetName() == delta.Object.GetName() {
+		original = originalObject
+	}
+
 	//nolint:nolintlint
 	switch delta.Type { //nolint:exhaustive
 	case object.Added, object.Updated, object.Upserted, object.Replaced:
 		t.log.V(4).Info("update-patch", "event-type", delta.Type,
 			"key", client.ObjectKeyFromObject(delta.Object).String())
 
-		// Check if we can use the original object snapshot (same GVK, namespace, name)
-		useOriginal := originalObject != nil &&
-			originalObject.GroupVersionKind() == delta.Object.GroupVersionKind() &&
-			originalObject.GetNamespace() == delta.Object.GetNamespace() &&
-			originalObject.GetName() == delta.Object.GetName()
-
-		var obj object.Object
-		if useOriginal {
-			// Use the original object snapshot (has correct resourceVersion)
-			obj = object.DeepCopy(originalObject)
-			t.log.V(4).Info("using original object snapshot for patch",
-				"resourceVersion", obj.GetResourceVersion())
-		} else {
-			// Fetch current target object
-			obj = object.New()
-			obj.SetGroupVersionKind(delta.Object.GroupVersionKind())
-			obj.SetName(delta.Object.GetName())
-			obj.SetNamespace(delta.Object.GetNamespace())
-			if err := c.Get(ctx, client.ObjectKeyFromObject(obj), obj); err != nil {
-				return err
-			}
-			t.log.V(4).Info("fetched target object for patch",
-				"resourceVersion", obj.GetResourceVersion())
-		}
-
-		// Apply delta changes to the object in-place using merge-patch semantics (RFC 7386).
-		// This properly merges nested objects and arrays rather than replacing them.
-		if err := object.Patch(obj, delta.Object.UnstructuredContent()); err != nil {
-			return err
-		}
-
-		// Restore critical metadata that must not be overwritten
-		obj.SetGroupVersionKind(delta.Object.GroupVersionKind())
-		obj.SetName(delta.Object.GetName())
-		obj.SetNamespace(delta.Object.GetNamespace())
-
-		// Use our custom Update function which handles both spec and status correctly.
-		// This uses optimistic concurrency control via resourceVersion (Kubernetes will reject
-		// if the object has changed). NotFound errors are ignored: the object has disappeared
-		// while we were working on it.
-		if err := Update(ctx, c, obj); err != nil {
-			if !apierrors.IsNotFound(err) {
+		// Merge the delta into the target using merge-patch semantics (RFC 7386). NotFound
+		// errors are ignored if the patch comes from the target object itself: it has
+		// disappeared while we were working on it.
+		obj, err := t.applyPatch(ctx, c, delta.Object, delta.Object.UnstructuredContent(), original)
+		if err != nil {
+			if original == nil || !apierrors.IsNotFound(err) {
 				return fmt.Errorf("update resource %s failed: %w",
 					client.ObjectKeyFromObject(delta.Object).String(), err)
 			}
 			t.log.V(2).Info("update-patch: object has disappeared (probably harmless)",
 				"event-type", delta.Type)
+			return nil
 		}
 
 		t.log.V(4).Info("patched object", "result", object.Dump(obj))
@@ -242,37 +216,6 @@ func (t *target) patch(ctx context.Context, delta object.Delta, originalObject o
 		t.log.V(4).Info("delete-patch", "event-type", delta.Type,
 			"key", client.ObjectKeyFromObject(delta.Object).String())
 
-		// Check if we can use the original object snapshot (same GVK, namespace, name)
-		useOriginal := originalObject != nil &&
-			originalObject.GroupVersionKind() == delta.Object.GroupVersionKind() &&
-			originalObject.GetNamespace() == delta.Object.GetNamespace() &&
-			originalObject.GetName() == delta.Object.GetName()
-
-		var obj object.Object
-		if useOriginal {
-			// Use the original object snapshot (has correct resourceVersion)
-			obj = object.DeepCopy(originalObject)
-			t.log.V(4).Info("using original object snapshot for delete-patch",
-				"resourceVersion", obj.GetResourceVersion())
-		} else {
-			// Fetch current target object
-			obj = object.New()
-			obj.SetGroupVersionKind(delta.Object.GroupVersionKind())
-			obj.SetName(delta.Object.GetName())
-			obj.SetNamespace(delta.Object.GetNamespace())
-			if err := c.Get(ctx, client.ObjectKeyFromObject(obj), obj); err != nil {
-				// NotFound errors are ignored: the object has disappeared
-				if apierrors.IsNotFound(err) {
-					t.log.V(2).Info("delete-patch: object has disappeared (probably harmless)",
-						"event-type", delta.Type)
-					return nil
-				}
-				return err
-			}
-			t.log.V(4).Info("fetched target object for delete-patch",
-				"resourceVersion", obj.GetResourceVersion())
-		}
-
 		// Apply the delete patch locally so that we fully control the behavior.
 		// The removeNestedMap function converts all leaf values to nil, which is
 		// the merge-patch semantics for deletion (RFC 7386).
@@ -288,30 +231,75 @@ func (t *target) patch(ctx context.Context, delta object.Delta, originalObject o
 
 		t.log.V(5).Info("delete-patch content", "patch", util.Stringify(patch))
 
-		// Apply delete patch to the fetched/cached object in-place
+		// Apply delete patch to the fetched/cached object. NotFound errors are ignored: the
+		// object has disappeared.
+		if _, err := t.applyPatch(ctx, c, delta.Object, patch, original); err != nil {
+			if !apierrors.IsNotFound(err) {
+				return fmt.Errorf("update resource %s after delete-patch failed: %w",
+					client.ObjectKeyFromObject(delta.Object).String(), err)
+			}
+			t.log.V(2).Info("delete-patch: object has disappeared (probably harmless)",
+				"event-type", delta.Type)
+		}
+
+	default:
+		t.log.V(2).Info("target: ignoring delta", "type", delta.Type)
+	}
+
+	return nil
+}
+
+// applyPatch merges a patch into the target object. If given, the original object is what the patch is
+// first applied to, otherwise the current object is fetched. The update uses optimistic concurrency
+// control via resourceVersion (Kubernetes will reject if the object has changed): on conflict the
+// patch is applied again on the latest version. View objects have no resourceVersion, they are patched
+// atomically by the view cache.
+func (t *target) applyPatch(ctx context.Context, c client.Client, target object.Object, patch map[string]any, original object.Object) (object.Object, error) {
+	if isViewObject(target) {
+		data, err := json.Marshal(patch)
+		if err != nil {
+			return nil, err
+		}
+		return target, c.Patch(ctx, target, client.RawPatch(types.MergePatchType, data))
+	}
+
+	var obj object.Object
+	err := retry.RetryOnConflict(retry.DefaultBackoff, func() error {
+		if original != nil {
+			// Use the original object snapshot (has correct resourceVersion)
+			obj = object.DeepCopy(original)
+			original = nil // use the snapshot only once
+			t.log.V(4).Info("using original object snapshot for patch",
+				"resourceVersion", obj.GetResourceVersion())
+		} else {
+			// Fetch current target object
+			obj = object.New()
+			obj.SetGroupVersionKind(target.GroupVersionKind())
+			obj.SetName(target.GetName())
+			obj.SetNamespace(target.GetNamespace())
+			if err := c.Get(ctx, client.ObjectKeyFromObject(obj), obj); err != nil {
+				return err
+			}
+			t.log.V(4).Info("fetched target object for patch",
+				"resourceVersion", obj.GetResourceVersion())
+		}
+
+		// Apply delta changes to the object in-place using merge-patch semantics (RFC 7386).
+		// This properly merges nested objects and arrays rather than replacing them.
 		if err := object.Patch(obj, patch); err != nil {
 			return err
 		}
 
 		// Restore critical metadata that must not be overwritten
-		obj.SetGroupVersionKind(delta.Object.GroupVersionKind())
-		obj.SetName(delta.Object.GetName())
-		obj.SetNamespace(delta.Object.GetNamespace())
+		obj.SetGroupVersionKind(target.GroupVersionKind())
+		obj.SetName(target.GetName())
+		obj.SetNamespace(target.GetNamespace())
 
 		// Use our custom Update function which handles both spec and status correctly.
-		// This uses optimistic concurrency control via resourceVersion (Kubernetes will reject
-		// if the object has changed). NotFound errors are ignored: the object has disappeared
-		// while we were working on it.
-		if err := Update(ctx, c, obj); err != nil && !apierrors.IsNotFound(err) {
-			return fmt.Errorf("update resource %s after delete-patch failed: %w",
-				client.ObjectKeyFromObject(delta.Object).String(), err)
-		}
+		return Update(ctx, c, obj)
+	})
 
-	default:
-		t.log.V(2).Info("target: ignoring delta", "type", delta.Type)
-	}
-
-	return nil
+	return obj, err
 }
 
 func removeNestedMap(m map[string]any) map[string]any {
-- 
2.43.0


From f69ee321e1b28ddc13e663f4af1e20e01fb9ec95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:22 +0000
Subject: [PATCH 05/29] fix: pipeline: undo failed evaluations, remove exactly
 what was added

---
 pkg/dbsp/executor.go         | 55 ++++++++++++++++++++++++++++++++++++
 pkg/pipeline/pipeline.go     | 38 +++++++++++++++++++++++--
 pkg/pipeline/zset_adaptor.go | 20 ++++---------
 3 files changed, 96 insertions(+), 17 deletions(-)

diff --git a/pkg/dbsp/executor.go b/pkg/dbsp/executor.go
index 795076e..ddf3120 100644
--- a/pkg/dbsp/executor.go
+++ b/pkg/dbsp/executor.go
@@ -2,6 +2,7 @@ package dbsp
 
 import (
 	"fmt"
+	"slices"
 	"strings"
 
 	"github.com/go-logr/logr"
@@ -122,6 +123,60 @@ func (e *Executor) resetOperator(op Operator) {
 	}
 }
 
+// Checkpoint records the state of all stateful nodes. The returned function restores that state, which
+// allows the effects of a Process call that failed midway to be undone.
+func (e *Executor) Checkpoint() func() {
+	restores := []func(){}
+
+	if e.graph.joinNode != "" {
+		restores = append(restores, checkpointOperator(e.graph.nodes[e.graph.joinNode].Op))
+	}
+
+	for _, nodeID := range e.graph.chain {
+		restores = append(restores, checkpointOperator(e.graph.nodes[nodeID].Op))
+	}
+
+	return func() {
+		for _, restore := range restores {
+			restore()
+		}
+	}
+}
+
+// checkpointOperator records the state of an operator. Operators never change the z-sets that make up
+// their state, they only replace them, so it is enough to save the references.
+func checkpointOperator(op Operator) func() {
+	switch o := op.(type) {
+	case *IntegratorOp:
+		state := o.state
+		return func() { o.state = state }
+	case *DifferentiatorOp:
+		state := o.prevState
+		return func() { o.prevState = state }
+	case *DelayOp:
+		buffer := o.buffer
+		return func() { o.buffer = buffer }
+	case *IncrementalJoinOp:
+		states := slices.Clone(o.prevStates)
+		return func() { copy(o.prevStates, states) }
+	case *IncrementalBinaryJoinOp:
+		left, right := o.prevLeft, o.prevRight
+		return func() { o.prevLeft, o.prevRight = left, right }
+	case *FusedOp:
+		restores := make([]func(), 0, len(o.nodes))
+		for _, node := range o.nodes {
+			restores = append(restores, checkpointOperator(node))
+		}
+		return func() {
+			for _, restore := range restores {
+				restore()
+			}
+		}
+	default:
+		return func() {} // stateless
+	}
+}
+
 // GetExecutionPlan returns a human-readable execution plan.
 func (e *Executor) GetExecutionPlan() string {
 	plan := "Execution Plan:\n"
diff --git a/pkg/pipeline/pipeline.go b/pkg/pipeline/pipeline.go
index d8d7ff0..3b695f7 100644
--- a/pkg/pipeline/pipeline.go
+++ b/pkg/pipeline/pipeline.go
@@ -188,10 +188,18 @@ func (p *Pipeline) GetSourceCache(gvk schema.GroupVersionKind) *cache.Store {
 }
 
 // Evaluate processes an pipeline on the given delta.
-func (p *Pipeline) Evaluate(delta object.Delta) ([]object.Delta, error) {
+// If the evaluation fails then the pipeline is left as if the delta had never been received.
+func (p *Pipeline) Evaluate(delta object.Delta) (deltas []object.Delta, err error) {
 	p.mu.Lock()
 	defer p.mu.Unlock()
 
+	restore := p.checkpoint(delta.Object)
+	defer func() {
+		if err != nil {
+			restore()
+		}
+	}()
+
 	p.log.V(2).Info("processing event", "event-type", delta.Type, "object", ObjectKey(delta.Object))
 
 	// Init
@@ -222,7 +230,7 @@ func (p *Pipeline) Evaluate(delta object.Delta) ([]object.Delta, error) {
 		return nil, NewPipelineError(fmt.Errorf("failed to convert DBSP zset to delta: %w", err))
 	}
 
-	deltas, err := p.Reconcile(rawDeltas)
+	deltas, err = p.Reconcile(rawDeltas)
 	if err != nil {
 		return nil, NewPipelineError(fmt.Errorf("failed to update target cache from delta: %w", err))
 	}
@@ -233,6 +241,32 @@ func (p *Pipeline) Evaluate(delta object.Delta) ([]object.Delta, error) {
 	return deltas, nil
 }
 
+// checkpoint records the pipeline state that may be affected by processing an event for the given object
+// and returns a function that restores it.
+func (p *Pipeline) checkpoint(obj object.Object) func() {
+	restoreExecutor := p.executor.Checkpoint()
+
+	gvk := obj.GetObjectKind().GroupVersionKind()
+	var old object.Object
+	if store, ok := p.sourceCache[gvk]; ok {
+		if o, exists, err := store.Get(obj); err == nil && exists {
+			old = o
+		}
+	}
+
+	return func() {
+		restoreExecutor()
+		store, ok := p.sourceCache[gvk]
+		switch {
+		case !ok:
+		case old != nil:
+			store.Update(old) //nolint:errcheck
+		default:
+			store.Delete(obj) //nolint:errcheck
+		}
+	}
+}
+
 // Sync performs state-of-the-world reconciliation by computing the delta needed to bring the
 // target state up to date with the current source state.
 //
diff --git a/pkg/pipeline/zset_adaptor.go b/pkg/pipeline/zset_adaptor.go
index 3beb083..dab997b 100644
--- a/pkg/pipeline/zset_adaptor.go
+++ b/pkg/pipeline/zset_adaptor.go
@@ -47,20 +47,9 @@ func (p *Pipeline) ConvertDeltaToZSet(delta object.Delta) (*dbsp.DocumentZSet, e
 
 	zset := dbsp.NewDocumentZSet()
 	switch delta.Type {
-	case object.Added:
-		if err := zset.AddDocumentMutate(deltaObj.UnstructuredContent(), 1); err != nil {
-			return nil, NewPipelineError(
-				fmt.Errorf("processing event %q: could not add object %s to zset: %w",
-					delta.Type, ObjectKey(deltaObj), err))
-		}
-
-		if err := p.sourceCache[gvk].Add(deltaObj); err != nil {
-			return nil, fmt.Errorf("processing event %q: could not add object %s to store: %w",
-				delta.Type, ObjectKey(deltaObj), err)
-		}
-
-	case object.Updated, object.Replaced, object.Upserted:
-		// delete followed by an add
+	case object.Added, object.Updated, object.Replaced, object.Upserted:
+		// delete followed by an add: this applies to Added too as an object may be added
+		// again without a delete event
 		if old != nil {
 			if err := zset.AddDocumentMutate(old.UnstructuredContent(), -1); err != nil {
 				return nil, NewPipelineError(
@@ -87,7 +76,8 @@ func (p *Pipeline) ConvertDeltaToZSet(delta object.Delta) (*dbsp.DocumentZSet, e
 					delta.Type, ObjectKey(deltaObj)))
 		}
 
-		if err := zset.AddDocumentMutate(deltaObj.UnstructuredContent(), -1); err != nil {
+		// Remove what we have added: the final state of the object may be different.
+		if err := zset.AddDocumentMutate(old.UnstructuredContent(), -1); err != nil {
 			return nil, NewPipelineError(
 				fmt.Errorf("processing event %q: could not add object %s to zset: %w",
 					delta.Type, ObjectKey(deltaObj), err))
-- 
2.43.0


From e8f152d421ef47f873bc691a33193cdaee96480d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:14 +0000
Subject: [PATCH 06/29] fix: controllers: apply writes in order, retry exactly
 the failed ones, never retry on top of newer events

---
 pkg/controller/declarative.go |  50 ++++++----
 pkg/controller/reconcilers.go | 176 +++++++++++++++++++++++++++-------
 2 files changed, 174 insertions(+), 52 deletions(-)

diff --git a/pkg/controller/declarative.go b/pkg/controller/declarative.go
index 570478f..b675508 100644
--- a/pkg/controller/declarative.go
+++ b/pkg/controller/declarative.go
@@ -3,6 +3,7 @@ package controller
 import (
 	"fmt"
 	"strings"
+	"sync"
 
 	"github.com/go-logr/logr"
 	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
@@ -27,6 +28,9 @@ type DeclarativeController struct {
 	target      reconciler.Target
 	mgr         manager.Manager
 	pipeline    pipeline.Evaluator
+	mu          sync.Mutex                          // serializes evaluation and target writes
+	requests    map[reconciler.Request]requestState // failed requests to be retried
+	pending     []pendingWrite                      // deltas to be written into the target
 	logger, log logr.Logger
 }
 
@@ -42,11 +46,12 @@ func NewDeclarative(mgr manager.Manager, operator string, config opv1a1.Controll
 	}
 
 	c := &DeclarativeController{
-		mgr:     mgr,
-		op:      operator,
-		sources: []reconciler.Source{},
-		config:  config,
-		logger:  logger,
+		mgr:      mgr,
+		op:       operator,
+		sources:  []reconciler.Source{},
+		config:   config,
+		requests: map[reconciler.Request]requestState{},
+		logger:   logger,
 	}
 	c.errorReporter = NewErrorReporter(c, opts.ErrorChan)
 
@@ -83,14 +88,32 @@ func NewDeclarative(mgr manager.Manager, operator string, config opv1a1.Controll
 
 	c.log.V(4).Info("creating", "sources", fmt.Sprintf("[%s]", strings.Join(srcs, ",")))
 
-	on := true
-	baseviews := []schema.GroupVersionKind{}
-	for i, s := range c.sources {
+	// Only incremental sources flow through the pipeline.
+	gvks, baseviews := []schema.GroupVersionKind{}, []schema.GroupVersionKind{}
+	for _, s := range c.sources {
 		gvk, err := s.GetGVK()
 		if err != nil {
 			return c, c.PushCriticalErrorf("failed to obtain GVK for source %s: %w",
 				util.Stringify(s), err)
 		}
+		gvks = append(gvks, gvk)
+		if s.Type() != opv1a1.Periodic {
+			baseviews = append(baseviews, gvk)
+		}
+	}
+
+	// Create the pipeline: it must be ready by the time the first event arrives from the sources.
+	pipeline, err := pipeline.New(c.op, targetGVK, baseviews, c.config.Pipeline,
+		logger.WithName("pipeline").WithValues("controller", c.name, "target", targetGVK.String()))
+	if err != nil {
+		return c, c.PushCriticalErrorf("failed to create pipleline for controller %s: %w",
+			c.name, err)
+	}
+	c.pipeline = pipeline
+
+	on := true
+	for i, s := range c.sources {
+		gvk := gvks[i]
 
 		// Choose reconciler based on source type.
 		var rec reconcile.TypedReconciler[reconciler.Request]
@@ -100,8 +123,6 @@ func NewDeclarative(mgr manager.Manager, operator string, config opv1a1.Controll
 		} else {
 			// Incremental reconciler for watcher and oneshot sources.
 			rec = NewIncrementalReconciler(mgr, c)
-			// Only incremental sources flow through the pipeline.
-			baseviews = append(baseviews, gvk)
 		}
 
 		// Create the controller with a unique name per source.
@@ -134,15 +155,6 @@ func NewDeclarative(mgr manager.Manager, operator string, config opv1a1.Controll
 		c.log.V(4).Info("watching resource", "GVK", s.String(), "controller", ctrlName)
 	}
 
-	// Create the pipeline.
-	pipeline, err := pipeline.New(c.op, targetGVK, baseviews, c.config.Pipeline,
-		logger.WithName("pipeline").WithValues("controller", c.name, "target", targetGVK.String()))
-	if err != nil {
-		return c, c.PushCriticalErrorf("failed to create pipleline for controller %s: %w",
-			c.name, err)
-	}
-	c.pipeline = pipeline
-
 	c.log.Info("controller ready", "sources", fmt.Sprintf("[%s]", strings.Join(srcs, ",")),
 		"pipeline", c.pipeline.String(), "target", c.target.String(),
 		"errors", strings.Join(c.Report(), ","))
diff --git a/pkg/controller/reconcilers.go b/pkg/controller/reconcilers.go
index c0351d0..fa12173 100644
--- a/pkg/controller/reconcilers.go
+++ b/pkg/controller/reconcilers.go
@@ -2,12 +2,14 @@ package controller
 
 import (
 	"context"
+	"errors"
 	"fmt"
 
 	"github.com/go-logr/logr"
 	"sigs.k8s.io/controller-runtime/pkg/client"
 	"sigs.k8s.io/controller-runtime/pkg/reconcile"
 
+	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
 	"github.com/l7mp/dcontroller/pkg/manager"
 	"github.com/l7mp/dcontroller/pkg/object"
 	"github.com/l7mp/dcontroller/pkg/reconciler"
@@ -32,7 +34,7 @@ func NewIncrementalReconciler(mgr manager.Manager, c *DeclarativeController) *In
 }
 
 // Reconcile implements the reconciler for incremental updates.
-// It processes the request directly (pipeline has internal locking for thread safety).
+// It processes the request directly. If some of the resultant writes fail then the request is retried.
 func (r *IncrementalReconciler) Reconcile(ctx context.Context, req reconciler.Request) (reconcile.Result, error) {
 	r.log.V(2).Info("processing request", "request", util.Stringify(req))
 
@@ -53,29 +55,45 @@ func (r *IncrementalReconciler) Reconcile(ctx context.Context, req reconciler.Re
 		Object: obj,
 	}
 
-	// Process the delta through the pipeline (pipeline has internal locking).
-	deltas, err := r.controller.pipeline.Evaluate(delta)
-	if err != nil {
-		err = fmt.Errorf("error evaluating pipeline for object %s/%s: %w", req.GVK,
-			client.ObjectKeyFromObject(obj), err)
-		r.log.Error(r.controller.Push(err), "error", "request", req)
-		return reconcile.Result{}, err
-	}
+	// Requests are evaluated and written one at a time: otherwise the writes of the requests from
+	// different sources could overtake each other.
+	c := r.controller
+	c.mu.Lock()
+	defer c.mu.Unlock()
 
-	// Apply the resultant deltas.
-	for _, d := range deltas {
-		r.log.V(4).Info("writing delta to target", "target", r.controller.target.String(),
-			"delta-type", d.Type, "object", object.Dump(d.Object))
-
-		// Pass the original object from the request for optimistic concurrency control.
-		if err := r.controller.target.Write(ctx, d, req.Object); err != nil {
-			err = fmt.Errorf("cannot update target %s for delta %s: %w", req.GVK,
-				d.String(), err)
-			r.log.Error(r.controller.Push(err), "error", "request", req)
+	state, isRetry := c.begin(req)
+	switch {
+	case state == requestSuperseded:
+		r.log.V(2).Info("dropping failed request: object has changed since", "request", util.Stringify(req))
+		return reconcile.Result{}, nil
+
+	case state != requestEvaluated:
+		// Process the delta through the pipeline.
+		deltas, err := c.pipeline.Evaluate(delta)
+		if err != nil {
+			err = fmt.Errorf("error evaluating pipeline for object %s/%s: %w", req.GVK,
+				client.ObjectKeyFromObject(obj), err)
+			c.fail(req, requestFailed)
+			r.log.Error(c.Push(err), "error", "request", req)
 			return reconcile.Result{}, err
 		}
+		c.enqueue(req, deltas)
 	}
 
+	// Apply the resultant deltas. Pass the original object from the request for optimistic
+	// concurrency control, unless it is outdated.
+	original := req.Object
+	if isRetry {
+		original = nil
+	}
+	if err := c.flush(ctx, func(w pendingWrite) bool { return w.request == req }, original); err != nil {
+		// The pipeline has already processed the request: only the failed writes must be retried.
+		c.fail(req, requestEvaluated)
+		r.log.Error(c.Push(err), "error", "request", req)
+		return reconcile.Result{}, err
+	}
+	c.done(req)
+
 	return reconcile.Result{}, nil
 }
 
@@ -103,31 +121,123 @@ func (r *StateOfTheWorldReconciler) Reconcile(ctx context.Context, req reconcile
 	// Automatically decode Secret data fields for use in pipeline expressions.
 	req.Object = object.DecodeSecretData(req.Object)
 
+	c := r.controller
+	c.mu.Lock()
+	defer c.mu.Unlock()
+
 	// Call pipeline.Sync() to compute the delta needed to reconcile target state.
-	deltas, err := r.controller.pipeline.Sync()
+	deltas, err := c.pipeline.Sync()
 	if err != nil {
 		err = fmt.Errorf("error during state-of-the-world reconciliation: %w", err)
-		r.log.Error(r.controller.Push(err), "error", "request", req)
+		r.log.Error(c.Push(err), "error", "request", req)
 		return reconcile.Result{}, err
 	}
 
 	r.log.V(2).Info("state-of-the-world reconciliation computed deltas", "num-deltas", len(deltas))
 
-	// Apply the deltas to the target.
-	for _, d := range deltas {
-		r.log.V(4).Info("writing delta to target", "target", r.controller.target.String(),
-			"delta-type", d.Type, "object", object.Dump(d.Object))
-
-		// Pass nil for state-of-the-world reconciliation (eventual consistency is acceptable).
-		if err := r.controller.target.Write(ctx, d, nil); err != nil {
-			err = fmt.Errorf("cannot update target %s for delta %s: %w",
-				r.controller.target.String(), d.String(), err)
-			r.log.Error(r.controller.Push(err), "error", "request", req)
-			return reconcile.Result{}, err
-		}
+	// Apply the deltas to the target, along with all writes that have failed so far. Pass nil for
+	// state-of-the-world reconciliation (eventual consistency is acceptable).
+	c.enqueue(req, deltas)
+	if err := c.flush(ctx, func(pendingWrite) bool { return true }, nil); err != nil {
+		r.log.Error(c.Push(err), "error", "request", req)
+		return reconcile.Result{}, err
 	}
 
 	r.log.V(1).Info("reconciliation complete", "num-deltas", len(deltas))
 
 	return reconcile.Result{}, nil
 }
+
+// requestState is the state of a failed request.
+type requestState int
+
+const (
+	requestNew        requestState = iota // not seen yet
+	requestFailed                         // the pipeline could not process the request
+	requestSuperseded                     // ... and the object has changed since
+	requestEvaluated                      // the pipeline has processed the request but some writes failed
+)
+
+// pendingWrite is a delta that has not been written into the target yet.
+type pendingWrite struct {
+	request reconciler.Request
+	delta   object.Delta
+}
+
+// begin returns the state of a request and whether this is a retry. Each event has its own request (it
+// holds the snapshot of the object taken at the event), so a request seen earlier is being retried.
+func (c *DeclarativeController) begin(req reconciler.Request) (requestState, bool) {
+	if state, ok := c.requests[req]; ok {
+		if state == requestSuperseded {
+			delete(c.requests, req)
+		}
+		return state, true
+	}
+
+	// This is a new event for the object: failed older ones must not be applied on top of it.
+	for r, state := range c.requests {
+		if state == requestFailed && r.GVK == req.GVK && r.Namespace == req.Namespace && r.Name == req.Name {
+			c.requests[r] = requestSuperseded
+		}
+	}
+
+	return requestNew, false
+}
+
+// fail records that a request failed and will be retried.
+func (c *DeclarativeController) fail(req reconciler.Request, state requestState) {
+	c.requests[req] = state
+}
+
+// done records that a request has been fully processed.
+func (c *DeclarativeController) done(req reconciler.Request) {
+	delete(c.requests, req)
+}
+
+// enqueue adds the deltas resulting from a request to the list of pending writes. A delta overrides the
+// pending writes to the same target object, except that a patch that withdraws some content must not
+// be lost just because new content is to be patched into the object.
+func (c *DeclarativeController) enqueue(req reconciler.Request, deltas []object.Delta) {
+	for _, d := range deltas {
+		key := client.ObjectKeyFromObject(d.Object)
+		writes := make([]pendingWrite, 0, len(c.pending)+1)
+		for _, w := range c.pending {
+			if client.ObjectKeyFromObject(w.delta.Object) == key {
+				if c.config.Target.Type != opv1a1.Patcher || w.delta.Type != object.Deleted {
+					continue
+				}
+				w.request = req
+			}
+			writes = append(writes, w)
+		}
+		c.pending = append(writes, pendingWrite{request: req, delta: d})
+	}
+}
+
+// flush writes the selected pending deltas into the target. Deltas that cannot be written remain pending
+// but do not prevent the rest from being written.
+func (c *DeclarativeController) flush(ctx context.Context, selected func(pendingWrite) bool, original object.Object) error {
+	var errs []error
+	failed := map[client.ObjectKey]bool{}
+	writes := []pendingWrite{}
+	for _, w := range c.pending {
+		key := client.ObjectKeyFromObject(w.delta.Object)
+		if !selected(w) || failed[key] {
+			writes = append(writes, w)
+			continue
+		}
+
+		c.log.V(4).Info("writing delta to target", "target", c.target.String(),
+			"delta-type", w.delta.Type, "object", object.Dump(w.delta.Object))
+
+		if err := c.target.Write(ctx, w.delta, original); err != nil {
+			errs = append(errs, fmt.Errorf("cannot update target %s for delta %s: %w",
+				c.target.String(), w.delta.String(), err))
+			failed[key] = true
+			writes = append(writes, w)
+		}
+	}
+	c.pending = writes
+
+	return errors.Join(errs...)
+}
-- 
2.43.0


From 69d67b9a9d8b37c92558827dfbad4389947c43a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:37 +0000
Subject: [PATCH 07/29] fix: pipeline: remove a target object only when no
 result remains for it

---
 pkg/pipeline/pipeline.go     |  13 +++++
 pkg/pipeline/zset_adaptor.go | 108 +++++++++++++++++++++++++++++++++++
 2 files changed, 121 insertions(+)

diff --git a/pkg/pipeline/pipeline.go b/pkg/pipeline/pipeline.go
index 3b695f7..682c3cd 100644
--- a/pkg/pipeline/pipeline.go
+++ b/pkg/pipeline/pipeline.go
@@ -66,6 +66,7 @@ type Pipeline struct {
 	sourceCache      map[schema.GroupVersionKind]*cache.Store
 	target           schema.GroupVersionKind
 	targetCache      *cache.Store
+	results          map[string]*result // Results yielded for each target object
 	snapshotGraph    *dbsp.ChainGraph
 	snapshotExecutor *dbsp.SnapshotExecutor
 	mu               sync.Mutex // Protects against concurrent Evaluate/Sync calls
@@ -91,6 +92,7 @@ func New(operator string, target schema.GroupVersionKind, sources []schema.Group
 		sourceCache: make(map[schema.GroupVersionKind]*cache.Store),
 		target:      target,
 		targetCache: cache.NewStore(),
+		results:     make(map[string]*result),
 		log:         log,
 	}
 
@@ -225,10 +227,16 @@ func (p *Pipeline) Evaluate(delta object.Delta) (deltas []object.Delta, err erro
 		return nil, NewPipelineError(fmt.Errorf("failed to evaluate the DBSP graph: %w", err))
 	}
 
+	res, commit, err := p.countResults(res)
+	if err != nil {
+		return nil, NewPipelineError(fmt.Errorf("failed to process the results: %w", err))
+	}
+
 	rawDeltas, err := p.ConvertZSetToDelta(res, p.target)
 	if err != nil {
 		return nil, NewPipelineError(fmt.Errorf("failed to convert DBSP zset to delta: %w", err))
 	}
+	commit()
 
 	deltas, err = p.Reconcile(rawDeltas)
 	if err != nil {
@@ -327,6 +335,11 @@ func (p *Pipeline) Sync() ([]object.Delta, error) {
 		return nil, NewPipelineError(fmt.Errorf("failed to execute snapshot pipeline: %w", err))
 	}
 
+	// The same target object may be yielded multiple times.
+	if requiredState, err = requiredState.Distinct(); err != nil {
+		return nil, NewPipelineError(fmt.Errorf("failed to collapse snapshot results: %w", err))
+	}
+
 	p.log.V(2).Info("snapshot execution complete", "required-docs", requiredState.Size())
 
 	// Step 3: Convert target cache to ZSet (current target state).
diff --git a/pkg/pipeline/zset_adaptor.go b/pkg/pipeline/zset_adaptor.go
index dab997b..75ca7d2 100644
--- a/pkg/pipeline/zset_adaptor.go
+++ b/pkg/pipeline/zset_adaptor.go
@@ -96,6 +96,114 @@ func (p *Pipeline) ConvertDeltaToZSet(delta object.Delta) (*dbsp.DocumentZSet, e
 	return zset, nil
 }
 
+// result records what the pipeline currently yields for a target object. An object may be yielded several
+// times, e.g., from different source objects, and it must be removed only along with the last result.
+type result struct {
+	count int                // number of the results
+	docs  *dbsp.DocumentZSet // the results
+	shown dbsp.Document      // the result written into the target
+}
+
+// countResults updates the results recorded for the target objects with the delta returned by DBSP and
+// adjusts the delta so that it removes only the objects for which no result remains. The records are
+// updated when the returned function is called.
+func (p *Pipeline) countResults(zset *dbsp.DocumentZSet) (*dbsp.DocumentZSet, func(), error) {
+	entries, err := zset.List()
+	if err != nil {
+		return nil, nil, err
+	}
+
+	type change struct{ adds, removes *dbsp.DocumentZSet }
+	changes := map[string]*change{}
+	for _, e := range entries {
+		key := resultKey(e.Document)
+		if _, ok := changes[key]; !ok {
+			changes[key] = &change{adds: dbsp.NewDocumentZSet(), removes: dbsp.NewDocumentZSet()}
+		}
+		z := changes[key].adds
+		if e.Multiplicity < 0 {
+			z = changes[key].removes
+		}
+		if err := z.AddDocumentMutate(e.Document, e.Multiplicity); err != nil {
+			return nil, nil, err
+		}
+	}
+
+	ret, results := dbsp.NewDocumentZSet(), map[string]*result{}
+	for key, c := range changes {
+		delta, err := c.adds.Add(c.removes)
+		if err != nil {
+			return nil, nil, err
+		}
+
+		r := &result{docs: delta}
+		if old, ok := p.results[key]; ok {
+			if r.docs, err = old.docs.Add(delta); err != nil {
+				return nil, nil, err
+			}
+			r.count, r.shown = old.count, old.shown
+		}
+		added := c.adds.TotalSize()
+		r.count += added - c.removes.TotalSize()
+		results[key] = r
+
+		if r.count <= 0 {
+			// no result remains
+			if ret, err = ret.Add(delta); err != nil {
+				return nil, nil, err
+			}
+			continue
+		}
+
+		if added == r.count {
+			// only the new results remain: forget the rest, it may be non-empty if the
+			// documents contain dynamic fields (e.g., @now)
+			r.docs = c.adds
+		}
+
+		candidates := c.adds
+		if added == 0 {
+			// keep showing the current result unless it is gone
+			ok, err := r.docs.Contains(r.shown)
+			if err != nil {
+				return nil, nil, err
+			}
+			if ok {
+				continue
+			}
+			candidates = r.docs
+		}
+
+		docs, err := candidates.GetUniqueDocuments()
+		if err != nil {
+			return nil, nil, err
+		}
+		if len(docs) > 0 {
+			r.shown = docs[0]
+			if err := ret.AddDocumentMutate(r.shown, 1); err != nil {
+				return nil, nil, err
+			}
+		}
+	}
+
+	return ret, func() {
+		for key, r := range results {
+			if r.count > 0 {
+				p.results[key] = r
+			} else {
+				delete(p.results, key)
+			}
+		}
+	}, nil
+}
+
+// resultKey returns the primary key of a result.
+func resultKey(doc dbsp.Document) string {
+	obj := object.New()
+	obj.SetUnstructuredContent(doc)
+	return client.ObjectKeyFromObject(obj).String()
+}
+
 // ConvertZSetToDelta converts a ZSet as returned by DBSP to a delta.
 func (p *Pipeline) ConvertZSetToDelta(zset *dbsp.DocumentZSet, target schema.GroupVersionKind) ([]object.Delta, error) {
 	ds := []object.Delta{}
-- 
2.43.0


From 610a2e84370411cc28a074e03be7ec62715ef5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:05 +0000
Subject: [PATCH 08/29] fix: predicates: do not suppress objects that were
 recreated while the watch was down

---
 pkg/kubernetes/controllers/operator.go |  3 ++-
 pkg/predicate/predicate.go             | 19 +++++++++++++++++++
 pkg/reconciler/source.go               |  2 +-
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/pkg/kubernetes/controllers/operator.go b/pkg/kubernetes/controllers/operator.go
index 9c5ad70..d9eab82 100644
--- a/pkg/kubernetes/controllers/operator.go
+++ b/pkg/kubernetes/controllers/operator.go
@@ -26,6 +26,7 @@ import (
 	"github.com/l7mp/dcontroller/pkg/controller"
 	"github.com/l7mp/dcontroller/pkg/manager"
 	"github.com/l7mp/dcontroller/pkg/operator"
+	opredicate "github.com/l7mp/dcontroller/pkg/predicate"
 	"github.com/l7mp/dcontroller/pkg/util"
 )
 
@@ -120,7 +121,7 @@ func NewOpController(config *rest.Config, sharedCache cache.Cache, opts manager.
 			crdMgr.GetCache(),
 			&opv1a1.Operator{},
 			&handler.EnqueueRequestForObject{},
-			predicate.GenerationChangedPredicate{},
+			opredicate.WithReplacements(predicate.GenerationChangedPredicate{}),
 		),
 	); err != nil {
 		return nil, err
diff --git a/pkg/predicate/predicate.go b/pkg/predicate/predicate.go
index 880f014..973c000 100644
--- a/pkg/predicate/predicate.go
+++ b/pkg/predicate/predicate.go
@@ -38,6 +38,7 @@ import (
 	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
 	"k8s.io/apimachinery/pkg/util/json"
 	"sigs.k8s.io/controller-runtime/pkg/client"
+	"sigs.k8s.io/controller-runtime/pkg/event"
 	"sigs.k8s.io/controller-runtime/pkg/predicate"
 )
 
@@ -69,6 +70,24 @@ func FromNamespace(namespace string) predicate.TypedPredicate[client.Object] {
 	})
 }
 
+// WithReplacements makes a predicate let through the updates that replace an object with another one of
+// the same name, as long as it lets through the deletion of the old object or the creation of the new
+// one. Such updates occur when an object is deleted and recreated while the watch is down.
+func WithReplacements(p predicate.TypedPredicate[client.Object]) predicate.TypedPredicate[client.Object] {
+	return predicate.Funcs{
+		CreateFunc: p.Create,
+		DeleteFunc: p.Delete,
+		UpdateFunc: func(e event.UpdateEvent) bool {
+			if e.ObjectOld != nil && e.ObjectNew != nil && e.ObjectOld.GetUID() != e.ObjectNew.GetUID() {
+				return p.Delete(event.DeleteEvent{Object: e.ObjectOld}) ||
+					p.Create(event.CreateEvent{Object: e.ObjectNew})
+			}
+			return p.Update(e)
+		},
+		GenericFunc: p.Generic,
+	}
+}
+
 // BasicPredicate represents an elemental predicate, namely one of "GenerationChanged",
 // "ResourceVersionChanged", "LabelChanged" or "AnnotationChanged".
 type BasicPredicate string
diff --git a/pkg/reconciler/source.go b/pkg/reconciler/source.go
index 952c4bf..7d95769 100644
--- a/pkg/reconciler/source.go
+++ b/pkg/reconciler/source.go
@@ -107,7 +107,7 @@ func (s *watchSource) GetSource() (runtimeSource.TypedSource[Request], error) {
 		if err != nil {
 			return nil, err
 		}
-		ps = append(ps, p)
+		ps = append(ps, predicate.WithReplacements(p))
 	}
 
 	if s.source.LabelSelector != nil {
-- 
2.43.0


From 1e8fc68a5ef0a3f9e7c905cfd724594f4cb1ae69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:41 +0000
Subject: [PATCH 09/29] fix: patch: remove list items named by a delete-patch
 instead of leaving nulls behind

---
 pkg/object/patch.go | 86 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 76 insertions(+), 10 deletions(-)

diff --git a/pkg/object/patch.go b/pkg/object/patch.go
index 531e69d..db3bbf9 100644
--- a/pkg/object/patch.go
+++ b/pkg/object/patch.go
@@ -29,7 +29,7 @@ func patch(o, m any) any {
 	}
 
 	if o == nil {
-		return DeepCopyAny(m)
+		return withoutNulls(m)
 	}
 
 	switch x := m.(type) {
@@ -40,20 +40,33 @@ func patch(o, m any) any {
 		litlm := x
 		litlo, ok2 := o.([]any)
 		if !ok2 {
-			return DeepCopyAny(litlm)
+			if v := withoutNulls(litlm); v != nil {
+				return v
+			}
+			return DeepCopyAny(o)
 		}
 
-		retl := DeepCopyAny(litlo).([]any)
-		for i := range litlm {
-			if i >= len(litlo) {
-				retl = append(retl, DeepCopyAny(litlm[i]))
+		retl := make([]any, 0, max(len(litlo), len(litlm)))
+		for i := range litlo {
+			if i >= len(litlm) {
+				retl = append(retl, DeepCopyAny(litlo[i]))
 				continue
 			}
+			if litlm[i] == nil {
+				continue // removed
+			}
 			if reflect.DeepEqual(litlo[i], litlm[i]) {
-				retl[i] = DeepCopyAny(litlm[i])
+				retl = append(retl, DeepCopyAny(litlm[i]))
 				continue
 			}
-			retl[i] = patch(litlo[i], litlm[i])
+			if v := patch(litlo[i], litlm[i]); !isEmptied(litlo[i], v) {
+				retl = append(retl, v)
+			}
+		}
+		for i := len(litlo); i < len(litlm); i++ {
+			if v := withoutNulls(litlm[i]); v != nil {
+				retl = append(retl, v)
+			}
 		}
 		return retl
 
@@ -61,7 +74,10 @@ func patch(o, m any) any {
 		litmm := x
 		litmo, ok2 := o.(map[string]any)
 		if !ok2 {
-			return DeepCopyAny(litmm)
+			if v := withoutNulls(litmm); v != nil {
+				return v
+			}
+			return DeepCopyAny(o)
 		}
 
 		retm := DeepCopyAny(litmo).(map[string]any)
@@ -73,7 +89,9 @@ func patch(o, m any) any {
 
 			vo, ok := litmo[k]
 			if !ok {
-				retm[k] = DeepCopyAny(v)
+				if v = withoutNulls(v); v != nil {
+					retm[k] = v
+				}
 				continue
 			}
 
@@ -83,6 +101,10 @@ func patch(o, m any) any {
 			}
 
 			v := patch(vo, v)
+			if l, ok := v.([]any); ok && len(l) == 0 && isEmptied(vo, v) {
+				delete(retm, k)
+				continue
+			}
 			retm[k] = v
 		}
 		return retm
@@ -92,6 +114,50 @@ func patch(o, m any) any {
 	}
 }
 
+// withoutNulls returns a copy of a patch to be applied on a nonexistent value: nulls remove nothing. A
+// patch that merely removes things leaves nothing.
+func withoutNulls(m any) any {
+	switch x := m.(type) {
+	case []any:
+		ret := make([]any, 0, len(x))
+		for i := range x {
+			if v := withoutNulls(x[i]); v != nil {
+				ret = append(ret, v)
+			}
+		}
+		if len(ret) == 0 && len(x) > 0 {
+			return nil
+		}
+		return ret
+	case map[string]any:
+		ret := make(map[string]any, len(x))
+		for k := range x {
+			if v := withoutNulls(x[k]); v != nil {
+				ret[k] = v
+			}
+		}
+		if len(ret) == 0 && len(x) > 0 {
+			return nil
+		}
+		return ret
+	default:
+		return DeepCopyAny(m)
+	}
+}
+
+// isEmptied returns true if a patch has removed everything from a non-empty list or map.
+func isEmptied(o, n any) bool {
+	switch x := o.(type) {
+	case []any:
+		l, ok := n.([]any)
+		return ok && len(l) == 0 && len(x) > 0
+	case map[string]any:
+		m, ok := n.(map[string]any)
+		return ok && len(m) == 0 && len(x) > 0
+	}
+	return false
+}
+
 // ApplyStrategicMergePatch is a partial local re-implementation of strategic merge patches.
 func ApplyStrategicMergePatch(original, patch *unstructured.Unstructured) (*unstructured.Unstructured, error) {
 	originalData, err := runtime.Encode(unstructured.UnstructuredJSONScheme, original)
-- 
2.43.0


From ed9d97bf57d06b9fa08356e5a434e2fced852c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:41 +0000
Subject: [PATCH 10/29] fix: targets: do not undo concurrent changes of a view
 when updating it

---
 pkg/cache/view_client.go    | 28 ++++++++++++++++++++++++++--
 pkg/reconciler/ctrlutils.go |  6 +++++-
 pkg/reconciler/target.go    | 27 +++++++++++++++++++++------
 3 files changed, 52 insertions(+), 9 deletions(-)

diff --git a/pkg/cache/view_client.go b/pkg/cache/view_client.go
index 7bd94ee..271b18e 100644
--- a/pkg/cache/view_client.go
+++ b/pkg/cache/view_client.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 
+	apierrors "k8s.io/apimachinery/pkg/api/errors"
 	"k8s.io/apimachinery/pkg/api/meta"
 	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
 	"k8s.io/apimachinery/pkg/runtime"
@@ -82,8 +83,18 @@ func (c *ViewCacheClient) Update(ctx context.Context, obj client.Object, opts ..
 	}
 
 	// View objects are ephemeral in-memory objects without etcd-based optimistic concurrency
-	// control, so there's no resourceVersion to check. Unchanged objects are not updated.
-	err := c.cache.Modify(newObj, func(_ object.Object) (object.Object, error) { return newObj, nil })
+	// control, so there's no resourceVersion to check: use the IfUnchanged option to make sure
+	// that no concurrent change is lost. Unchanged objects are not updated.
+	err := c.cache.Modify(newObj, func(current object.Object) (object.Object, error) {
+		for _, opt := range opts {
+			if o, ok := opt.(*ifUnchanged); ok && !object.DeepEqual(current, o.obj) {
+				gvk := newObj.GetObjectKind().GroupVersionKind()
+				return nil, apierrors.NewConflict(schema.GroupResource{Group: gvk.Group, Resource: gvk.Kind},
+					newObj.GetName(), errors.New("the object has been modified"))
+			}
+		}
+		return newObj, nil
+	})
 	if err != nil {
 		return fmt.Errorf("cannot update object with key %s: %w", client.ObjectKeyFromObject(newObj), err)
 	}
@@ -91,6 +102,19 @@ func (c *ViewCacheClient) Update(ctx context.Context, obj client.Object, opts ..
 	return nil
 }
 
+type ifUnchanged struct {
+	obj object.Object
+}
+
+// IfUnchanged returns an option that makes the update of a view fail with a conflict if the stored
+// object is no longer the given one. The option has no effect on native objects.
+func IfUnchanged(obj object.Object) client.UpdateOption {
+	return &ifUnchanged{obj: object.DeepCopy(obj)}
+}
+
+// ApplyToUpdate implements client.UpdateOption.
+func (*ifUnchanged) ApplyToUpdate(*client.UpdateOptions) {}
+
 // Patch patches the given obj in the ViewCache. Note that obj is NOT updated to the new content.
 func (c *ViewCacheClient) Patch(ctx context.Context, obj client.Object, patch client.Patch, opts ...client.PatchOption) error {
 	o, ok := obj.(object.Object)
diff --git a/pkg/reconciler/ctrlutils.go b/pkg/reconciler/ctrlutils.go
index 0653edb..ceebfda 100644
--- a/pkg/reconciler/ctrlutils.go
+++ b/pkg/reconciler/ctrlutils.go
@@ -12,6 +12,7 @@ import (
 	"sigs.k8s.io/controller-runtime/pkg/controller/controllerutil"
 
 	viewv1a1 "github.com/l7mp/dcontroller/pkg/api/view/v1alpha1"
+	"github.com/l7mp/dcontroller/pkg/cache"
 )
 
 // isViewObject returns true if the object is a view object.
@@ -68,6 +69,9 @@ func CreateOrUpdate(ctx context.Context, c client.Client, obj object.Object, f c
 		}
 	}
 
+	// Views have no resource version: make sure not to undo concurrent changes.
+	unchanged := cache.IfUnchanged(obj)
+
 	if err := mutate(f, key, obj); err != nil {
 		return controllerutil.OperationResultNone, err
 	}
@@ -75,7 +79,7 @@ func CreateOrUpdate(ctx context.Context, c client.Client, obj object.Object, f c
 	// Update may rewrite out status
 	newStatus, hasStatus, _ := unstructured.NestedMap(obj.UnstructuredContent(), "status")
 
-	if err := c.Update(ctx, obj); err != nil {
+	if err := c.Update(ctx, obj, unchanged); err != nil {
 		return controllerutil.OperationResultNone, err
 	}
 
diff --git a/pkg/reconciler/target.go b/pkg/reconciler/target.go
index 429b982..0424198 100644
--- a/pkg/reconciler/target.go
+++ b/pkg/reconciler/target.go
@@ -13,6 +13,7 @@ import (
 	"k8s.io/apimachinery/pkg/types"
 	"k8s.io/client-go/util/retry"
 	"sigs.k8s.io/controller-runtime/pkg/client"
+	"sigs.k8s.io/controller-runtime/pkg/controller/controllerutil"
 
 	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
 	"github.com/l7mp/dcontroller/pkg/manager"
@@ -104,10 +105,7 @@ func (t *target) update(ctx context.Context, delta object.Delta) error {
 		if err != nil {
 			return err
 		}
-		obj := object.New()
-		obj.SetGroupVersionKind(gvk)
-		obj.SetName(delta.Object.GetName())
-		obj.SetNamespace(delta.Object.GetNamespace())
+		var obj object.Object
 
 		// WARNING: the Update target cannot be used to delete labels and annotations, use
 		// the Patcher target for that (this is because we don't want the user to remove
@@ -115,7 +113,7 @@ func (t *target) update(ctx context.Context, delta object.Delta) error {
 		// pipeline may be too difficult)
 		//
 		// Use our own CreateOrUpdate that will also update the status
-		res, err := CreateOrUpdate(ctx, c, obj, func() error {
+		mutate := func() error {
 			// remove stuff that's no longer there
 			for k := range obj.UnstructuredContent() {
 				if k == "metadata" {
@@ -147,7 +145,24 @@ func (t *target) update(ctx context.Context, delta object.Delta) error {
 			obj.SetNamespace(delta.Object.GetNamespace())
 
 			return nil
-		})
+		}
+
+		var res controllerutil.OperationResult
+		createOrUpdate := func() error {
+			obj = object.New()
+			obj.SetGroupVersionKind(gvk)
+			obj.SetName(delta.Object.GetName())
+			obj.SetNamespace(delta.Object.GetNamespace())
+			res, err = CreateOrUpdate(ctx, c, obj, mutate)
+			return err
+		}
+
+		if isViewObject(delta.Object) {
+			// no stale caches to wait for: try again at once
+			err = retry.RetryOnConflict(retry.DefaultBackoff, createOrUpdate)
+		} else {
+			err = createOrUpdate()
+		}
 
 		// NotFound errors mean that the object has disappeared while we were working in it:
 		// it must be recreated
-- 
2.43.0


From e65b725ce7f03dd0e4682ea89adec41e25458dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:36 +0000
Subject: [PATCH 11/29] fix: choose the representative of a gather group by
 content

---
 pkg/dbsp/op_nonlinear.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/dbsp/op_nonlinear.go b/pkg/dbsp/op_nonlinear.go
index c64234f..705bc1d 100644
--- a/pkg/dbsp/op_nonlinear.go
+++ b/pkg/dbsp/op_nonlinear.go
@@ -3,6 +3,7 @@ package dbsp
 import (
 	"cmp"
 	"fmt"
+	"maps"
 	"slices"
 )
 
@@ -40,7 +41,10 @@ func (op *GatherOp) Process(inputs ...*DocumentZSet) (*DocumentZSet, error) {
 	// Step 1: Group documents by key, preserving one representative document per group
 	groups := make(map[string]*GroupData)
 
-	for key, multiplicity := range input.counts {
+	// Visit the documents in a fixed order: the representative of a group must depend only on the
+	// content of the group
+	for _, key := range slices.Sorted(maps.Keys(input.counts)) {
+		multiplicity := input.counts[key]
 		doc := input.docs[key]
 
 		// Extract key and value
-- 
2.43.0


From e1bcbd388a6ee1d9e0430e83c1879e92ea21bdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:36 +0000
Subject: [PATCH 12/29] fix: @none holds if no list element satisfies the
 condition

---
 pkg/expression/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/expression/expression.go b/pkg/expression/expression.go
index bea0d5e..fe7ba99 100644
--- a/pkg/expression/expression.go
+++ b/pkg/expression/expression.go
@@ -561,7 +561,7 @@ func (e *Expression) Evaluate(ctx EvalCtx) (any, error) {
 				return nil, errors.New("invalid arguments: expected a list")
 			}
 
-			v := false
+			v := true
 			for _, input := range list {
 				res, err := exp.Evaluate(EvalCtx{Object: ctx.Object, Subject: input, Log: ctx.Log})
 				if err != nil {
-- 
2.43.0


From ce4827f472049c11524b750826861e0d390dd404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:36 +0000
Subject: [PATCH 13/29] fix: DeleteAllOf on views ignores concurrently deleted
 objects

---
 pkg/cache/view_client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/cache/view_client.go b/pkg/cache/view_client.go
index 271b18e..5d35765 100644
--- a/pkg/cache/view_client.go
+++ b/pkg/cache/view_client.go
@@ -178,7 +178,8 @@ func (c *ViewCacheClient) DeleteAllOf(ctx context.Context, obj client.Object, op
 
 	// Delete each object
 	for _, item := range list.Items {
-		if err := c.cache.Delete(&item); err != nil {
+		// NotFound errors are ignored: the object has been deleted concurrently
+		if err := c.cache.Delete(&item); err != nil && !apierrors.IsNotFound(err) {
 			return err
 		}
 	}
-- 
2.43.0


From d8b834e3cb7ee1822d4cfa05dcfecf0eb6d7e508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:40 +0000
Subject: [PATCH 14/29] fix: convert pipelines with @gather and @unwind into
 snapshot mode

---
 pkg/dbsp/graph_converter.go | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/pkg/dbsp/graph_converter.go b/pkg/dbsp/graph_converter.go
index 2ae690c..3374400 100644
--- a/pkg/dbsp/graph_converter.go
+++ b/pkg/dbsp/graph_converter.go
@@ -10,7 +10,8 @@ type opConverter func(Operator) (Operator, error)
 // Non-linear operators like GatherOp remain unchanged (they're lifted with I→Op→D
 // in incremental mode, which gets stripped when converting to snapshot).
 func ToSnapshotGraph(incrementalGraph *ChainGraph) (*ChainGraph, error) {
-	return convertGraph(incrementalGraph, "incremental", convertToSnapshotJoin, convertToSnapshotOperator)
+	return convertGraph(incrementalGraph, "incremental", convertToSnapshotJoin, convertToSnapshotOperator,
+		isLiftingOperator)
 }
 
 // ToIncrementalGraph converts a snapshot ChainGraph to an incremental ChainGraph.
@@ -18,11 +19,13 @@ func ToSnapshotGraph(incrementalGraph *ChainGraph) (*ChainGraph, error) {
 // Non-linear operators like GatherOp are NOT converted here - they are lifted
 // with I→Op→D by the NonLinearLiftingRule in the rewrite engine.
 func ToIncrementalGraph(snapshotGraph *ChainGraph) (*ChainGraph, error) {
-	return convertGraph(snapshotGraph, "snapshot", convertToIncrementalJoin, convertToIncrementalOperator)
+	return convertGraph(snapshotGraph, "snapshot", convertToIncrementalJoin, convertToIncrementalOperator, nil)
 }
 
-// convertGraph is a helper that converts a ChainGraph using the provided converter functions.
-func convertGraph(sourceGraph *ChainGraph, sourceType string, joinConverter, opConverter opConverter) (*ChainGraph, error) {
+// convertGraph is a helper that converts a ChainGraph using the provided converter functions. The chain
+// nodes selected by the optional strip function are left out.
+func convertGraph(sourceGraph *ChainGraph, sourceType string, joinConverter, opConverter opConverter,
+	strip func(*ChainGraph, int) bool) (*ChainGraph, error) {
 	if err := sourceGraph.Validate(); err != nil {
 		return nil, fmt.Errorf("invalid %s graph: %w", sourceType, err)
 	}
@@ -47,7 +50,10 @@ func convertGraph(sourceGraph *ChainGraph, sourceType string, joinConverter, opC
 	}
 
 	// Convert chain operators.
-	for _, nodeID := range sourceGraph.chain {
+	for i, nodeID := range sourceGraph.chain {
+		if strip != nil && strip(sourceGraph, i) {
+			continue
+		}
 		node := sourceGraph.nodes[nodeID]
 		convertedOp, err := opConverter(node.Op)
 		if err != nil {
@@ -59,6 +65,19 @@ func convertGraph(sourceGraph *ChainGraph, sourceType string, joinConverter, opC
 	return targetGraph, nil
 }
 
+// isLiftingOperator returns true if the i-th node of the chain is the I or the D of a non-linear operator
+// lifted with I→Op→D.
+func isLiftingOperator(graph *ChainGraph, i int) bool {
+	switch graph.nodes[graph.chain[i]].Op.(type) {
+	case *IntegratorOp:
+		return i+1 < len(graph.chain) && graph.nodes[graph.chain[i+1]].Lifted
+	case *DifferentiatorOp:
+		return i > 0 && graph.nodes[graph.chain[i-1]].Lifted
+	default:
+		return false
+	}
+}
+
 // convertToSnapshotJoin converts an incremental join to snapshot join.
 func convertToSnapshotJoin(op Operator) (Operator, error) {
 	switch o := op.(type) {
@@ -97,7 +116,7 @@ func convertToIncrementalJoin(op Operator) (Operator, error) {
 func convertToSnapshotOperator(op Operator) (Operator, error) {
 	switch op.(type) {
 	// Linear operators are the same for snapshot and incremental.
-	case *ProjectionOp, *SelectionOp, *DistinctOp:
+	case *ProjectionOp, *SelectionOp, *UnwindOp, *DistinctOp:
 		return op, nil
 
 	// Fused operators are also the same.
@@ -130,7 +149,7 @@ func convertToIncrementalOperator(op Operator) (Operator, error) {
 		return op, nil
 
 	// Linear operators are the same for snapshot and incremental.
-	case *ProjectionOp, *SelectionOp, *DistinctOp:
+	case *ProjectionOp, *SelectionOp, *UnwindOp, *DistinctOp:
 		return op, nil
 
 	// Fused operators are also the same.
-- 
2.43.0


From ecb40864b33e25bd97a13c3ec7ceb500fce9dd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:40 +0000
Subject: [PATCH 15/29] fix: restore target objects that others have changed
 when a periodic source fires

---
 pkg/controller/reconcilers.go | 35 +++++++++++--
 pkg/reconciler/target.go      | 93 ++++++++++++++++++++++++++---------
 2 files changed, 101 insertions(+), 27 deletions(-)

diff --git a/pkg/controller/reconcilers.go b/pkg/controller/reconcilers.go
index fa12173..5da7c8d 100644
--- a/pkg/controller/reconcilers.go
+++ b/pkg/controller/reconcilers.go
@@ -135,10 +135,13 @@ func (r *StateOfTheWorldReconciler) Reconcile(ctx context.Context, req reconcile
 
 	r.log.V(2).Info("state-of-the-world reconciliation computed deltas", "num-deltas", len(deltas))
 
-	// Apply the deltas to the target, along with all writes that have failed so far. Pass nil for
-	// state-of-the-world reconciliation (eventual consistency is acceptable).
+	// Apply the deltas to the target, along with all writes that have failed so far and the objects
+	// that others have changed or removed. Pass nil for state-of-the-world reconciliation (eventual
+	// consistency is acceptable).
 	c.enqueue(req, deltas)
-	if err := c.flush(ctx, func(pendingWrite) bool { return true }, nil); err != nil {
+	drifted, err := c.drifted(ctx)
+	c.enqueue(req, drifted)
+	if err := errors.Join(err, c.flush(ctx, func(pendingWrite) bool { return true }, nil)); err != nil {
 		r.log.Error(c.Push(err), "error", "request", req)
 		return reconcile.Result{}, err
 	}
@@ -214,6 +217,32 @@ func (c *DeclarativeController) enqueue(req reconciler.Request, deltas []object.
 	}
 }
 
+// drifted returns the deltas that restore the target objects that others have changed or removed.
+func (c *DeclarativeController) drifted(ctx context.Context) ([]object.Delta, error) {
+	pending := map[client.ObjectKey]bool{}
+	for _, w := range c.pending {
+		pending[client.ObjectKeyFromObject(w.delta.Object)] = true
+	}
+
+	var errs []error
+	deltas := []object.Delta{}
+	for _, obj := range c.pipeline.GetTargetCache().List() {
+		if pending[client.ObjectKeyFromObject(obj)] {
+			continue
+		}
+
+		drifted, err := c.target.Drifted(ctx, obj)
+		if err != nil {
+			errs = append(errs, fmt.Errorf("cannot read target %s for object %s: %w",
+				c.target.String(), client.ObjectKeyFromObject(obj), err))
+		} else if drifted {
+			deltas = append(deltas, object.Delta{Type: object.Upserted, Object: object.DeepCopy(obj)})
+		}
+	}
+
+	return deltas, errors.Join(errs...)
+}
+
 // flush writes the selected pending deltas into the target. Deltas that cannot be written remain pending
 // but do not prevent the rest from being written.
 func (c *DeclarativeController) flush(ctx context.Context, selected func(pendingWrite) bool, original object.Object) error {
diff --git a/pkg/reconciler/target.go b/pkg/reconciler/target.go
index 0424198..1436622 100644
--- a/pkg/reconciler/target.go
+++ b/pkg/reconciler/target.go
@@ -25,6 +25,9 @@ import (
 type Target interface {
 	Resource
 	Write(context.Context, object.Delta, object.Object) error
+	// Drifted tells whether the target differs from what writing the given object would make of
+	// it, that is, whether others have changed or removed the object since it was written.
+	Drifted(context.Context, object.Object) (bool, error)
 	fmt.Stringer
 }
 
@@ -114,30 +117,7 @@ func (t *target) update(ctx context.Context, delta object.Delta) error {
 		//
 		// Use our own CreateOrUpdate that will also update the status
 		mutate := func() error {
-			// remove stuff that's no longer there
-			for k := range obj.UnstructuredContent() {
-				if k == "metadata" {
-					continue
-				}
-				if _, ok, _ := unstructured.NestedFieldNoCopy(delta.Object.UnstructuredContent(), k); !ok {
-					unstructured.RemoveNestedField(obj.UnstructuredContent(), k)
-				}
-			}
-
-			// then update the content with new keys: metadata and status will be handled separately
-			for k, v := range delta.Object.UnstructuredContent() {
-				if k == "metadata" {
-					continue
-				}
-
-				if err := unstructured.SetNestedField(obj.UnstructuredContent(), v, k); err != nil {
-					t.log.Error(err, "failed to update object field during update",
-						"object", client.ObjectKeyFromObject(obj).String(), "key", k)
-					continue
-				}
-			}
-
-			mergeMetadata(obj, delta.Object)
+			t.replaceContent(obj, delta.Object)
 
 			// restore metadata
 			obj.SetGroupVersionKind(gvk)
@@ -191,6 +171,71 @@ func (t *target) update(ctx context.Context, delta object.Delta) error {
 	return nil
 }
 
+// replaceContent replaces the content of a target object and merges the metadata.
+func (t *target) replaceContent(obj, newObj object.Object) {
+	// remove stuff that's no longer there
+	for k := range obj.UnstructuredContent() {
+		if k == "metadata" {
+			continue
+		}
+		if _, ok, _ := unstructured.NestedFieldNoCopy(newObj.UnstructuredContent(), k); !ok {
+			unstructured.RemoveNestedField(obj.UnstructuredContent(), k)
+		}
+	}
+
+	// then update the content with new keys: metadata and status will be handled separately
+	for k, v := range newObj.UnstructuredContent() {
+		if k == "metadata" {
+			continue
+		}
+
+		if err := unstructured.SetNestedField(obj.UnstructuredContent(), v, k); err != nil {
+			t.log.Error(err, "failed to update object field during update",
+				"object", client.ObjectKeyFromObject(obj).String(), "key", k)
+			continue
+		}
+	}
+
+	mergeMetadata(obj, newObj)
+}
+
+// Drifted tells whether others have changed or removed an object written into the target. Absent objects
+// cannot be patched, they are never considered to have drifted from a patch.
+func (t *target) Drifted(ctx context.Context, obj object.Object) (bool, error) {
+	gvk, err := t.GetGVK()
+	if err != nil {
+		return false, err
+	}
+
+	current := object.New()
+	current.SetGroupVersionKind(gvk)
+	if err := t.mgr.GetClient().Get(ctx, client.ObjectKeyFromObject(obj), current); err != nil {
+		if apierrors.IsNotFound(err) {
+			return t.target.Type != opv1a1.Patcher, nil
+		}
+		return false, err
+	}
+
+	obj = object.DeepCopy(obj)
+	desired := object.DeepCopy(current)
+	if t.target.Type == opv1a1.Patcher {
+		if err := object.Patch(desired, obj.UnstructuredContent()); err != nil {
+			return false, err
+		}
+	} else {
+		t.replaceContent(desired, obj)
+
+		// Updates do not remove the status of native objects.
+		status, ok := current.UnstructuredContent()["status"]
+		if _, has := obj.UnstructuredContent()["status"]; ok && !has && !isViewObject(current) {
+			desired.UnstructuredContent()["status"] = status
+		}
+	}
+	desired.SetGroupVersionKind(gvk)
+
+	return !object.DeepEqual(desired, current), nil
+}
+
 func (t *target) patch(ctx context.Context, delta object.Delta, originalObject object.Object) error {
 	t.log.V(5).Info("patching target", "delta-type", delta.Type, "object", object.Dump(delta.Object))
 
-- 
2.43.0


From 98a0a32d75ecf547895239a21f917f13b437c52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:04 +0000
Subject: [PATCH 16/29] fix: reporting an error never blocks the controller nor
 races with the status

Errors are pushed while the controller is being created or while it holds its lock: with nobody
receiving from the error channel (or no room in it) the controller hanged forever. The error stack
was also accessed from several goroutines without synchronization.
---
 pkg/controller/status_reporter.go | 42 +++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/pkg/controller/status_reporter.go b/pkg/controller/status_reporter.go
index 547e8d1..7f6a54a 100644
--- a/pkg/controller/status_reporter.go
+++ b/pkg/controller/status_reporter.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"strings"
+	"sync"
 	"time"
 
 	"golang.org/x/time/rate"
@@ -33,6 +34,7 @@ type Error struct {
 // errorReporter is the error stack implementation.
 type errorReporter struct {
 	c           *DeclarativeController
+	mu          sync.Mutex // protects the below
 	errorStack  []error
 	ratelimiter rate.Sometimes
 	errorChan   chan error
@@ -61,33 +63,47 @@ func (s *errorReporter) PushErrorf(format string, a ...any) error {
 
 // PushCritical pushes a critical error to the error stack.
 func (s *errorReporter) PushCritical(err error) error {
-	s.critical = true
+	s.setCritical()
 	return s.push(err)
 }
 
 // PushCriticalError pushes a critical error to the error stack.
 func (s *errorReporter) PushCriticalError(msg string) error {
-	s.critical = true
+	s.setCritical()
 	return s.push(errors.New(msg))
 }
 
 // PushCriticalErrorf pushes a formatted critical error to the error stack.
 func (s *errorReporter) PushCriticalErrorf(format string, a ...any) error {
-	s.critical = true
+	s.setCritical()
 	return s.push(fmt.Errorf(format, a...))
 }
 
+// setCritical records that a critical error has been reported.
+func (s *errorReporter) setCritical() {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	s.critical = true
+}
+
 // Push pushes a critical or non-critical error to the stack.
 func (s *errorReporter) push(err error) error {
 	ctrlErr := Error{Operator: s.c.op, Controller: s.c.name, error: err}
 
-	// ask a status update if trigger is set
+	// ask a status update if trigger is set, unless nobody can take it right now: the error is on
+	// the stack anyway and reporting it must not block the controller
 	defer s.ratelimiter.Do(func() {
 		if s.errorChan != nil {
-			s.errorChan <- ctrlErr
+			select {
+			case s.errorChan <- ctrlErr:
+			default:
+			}
 		}
 	})
 
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
 	if len(s.errorStack) == ErrorReporterStackSize {
 		copy(s.errorStack, s.errorStack[1:])
 		s.errorStack[len(s.errorStack)-1] = ctrlErr
@@ -100,7 +116,9 @@ func (s *errorReporter) push(err error) error {
 
 // Pop pops the extra error from the stack.
 func (s *errorReporter) Pop() {
-	if s.IsEmpty() {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	if len(s.errorStack) == 0 {
 		return
 	}
 	s.errorStack = s.errorStack[:len(s.errorStack)-1]
@@ -108,7 +126,9 @@ func (s *errorReporter) Pop() {
 
 // Top returns the last errors from the stack.
 func (s *errorReporter) Top() error {
-	if s.IsEmpty() {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	if len(s.errorStack) == 0 {
 		return nil
 	}
 	return s.errorStack[len(s.errorStack)-1]
@@ -116,21 +136,27 @@ func (s *errorReporter) Top() error {
 
 // Size returns the number of errors on the stack.
 func (s *errorReporter) Size() int {
+	s.mu.Lock()
+	defer s.mu.Unlock()
 	return len(s.errorStack)
 }
 
 // IsEmpty returns true if the stack is empty.
 func (s *errorReporter) IsEmpty() bool {
-	return len(s.errorStack) == 0
+	return s.Size() == 0
 }
 
 // HasCritical returns true if the stack contains a critical error.
 func (s *errorReporter) HasCritical() bool {
+	s.mu.Lock()
+	defer s.mu.Unlock()
 	return s.critical
 }
 
 // Report returns the error messages on the stack.
 func (s *errorReporter) Report() []string {
+	s.mu.Lock()
+	defer s.mu.Unlock()
 	errs := []string{}
 	for _, err := range s.errorStack {
 		errs = append(errs, trim(err.Error()))
-- 
2.43.0


From d1fa57d19dfe22528f7fe1b651beadc65e3900bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 17/29] fix: a periodic source with a nonpositive period stops
 its own controller only

---
 pkg/reconciler/source.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/reconciler/source.go b/pkg/reconciler/source.go
index 7d95769..c34ee9b 100644
--- a/pkg/reconciler/source.go
+++ b/pkg/reconciler/source.go
@@ -237,6 +237,11 @@ func (s *periodicSource) Type() opv1a1.SourceType { return opv1a1.Periodic }
 
 // GetSource generates a controller-runtime source that triggers periodic reconciliation.
 func (s *periodicSource) GetSource() (runtimeSource.TypedSource[Request], error) {
+	// Fail early: an error from a started source would stop the entire operator
+	if s.period <= 0 {
+		return nil, fmt.Errorf("periodic source requires positive period, got: %v", s.period)
+	}
+
 	s.log.V(4).Info("periodic source: ready")
 	return &periodicRuntimeSource{src: s, log: s.log}, nil
 }
-- 
2.43.0


From b10ba93411e2aa09fcf6fe696899fa7b236dc3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 18/29] fix: a source that does not sync does not stop the
 operator

---
 pkg/operator/operator.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/operator/operator.go b/pkg/operator/operator.go
index 54c9401..85c405b 100644
--- a/pkg/operator/operator.go
+++ b/pkg/operator/operator.go
@@ -16,6 +16,7 @@ package operator
 import (
 	"context"
 	"fmt"
+	"math"
 	"os"
 
 	"github.com/go-logr/logr"
@@ -85,6 +86,10 @@ func New(name string, config *rest.Config, opts Options) (*Operator, error) {
 		HealthProbeBindAddress: "0",
 		Controller: runtimeConfig.Controller{
 			SkipNameValidation: &off,
+			// Wait for the sources as long as it takes: a timeout (e.g., because the kind
+			// of a source does not exist yet or the API server is not available) would
+			// stop all controllers of the operator.
+			CacheSyncTimeout: math.MaxInt64,
 		},
 		Metrics: metricsserver.Options{
 			BindAddress: "0",
-- 
2.43.0


From 0792240e19cc578bbdced08be91ff1cb5198d822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:53 +0000
Subject: [PATCH 19/29] fix: the operator controller started its CRD manager
 twice

Depending on which of the two won the operator controller stopped right away with an error.
---
 pkg/kubernetes/controllers/operator.go | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/pkg/kubernetes/controllers/operator.go b/pkg/kubernetes/controllers/operator.go
index d9eab82..e0557d2 100644
--- a/pkg/kubernetes/controllers/operator.go
+++ b/pkg/kubernetes/controllers/operator.go
@@ -306,9 +306,8 @@ func (c *OpController) Reconcile(ctx context.Context, req reconcile.Request) (re
 	return reconcile.Result{}, nil
 }
 
-// Start starts the controller. It blocks.
-// Starts both the CRD manager (for watching Operator CRDs) and the operator manager
-// (for running operators and storing views).
+// Start starts the controller: the CRD manager (for watching Operator CRDs) and the operators known so
+// far. It blocks.
 func (c *OpController) Start(ctx context.Context) error {
 	c.log.V(2).Info("starting operator controller", "num-operators", len(c.operators),
 		"APIServer", fmt.Sprintf("%t", c.apiServer != nil))
@@ -323,15 +322,6 @@ func (c *OpController) Start(ctx context.Context) error {
 	c.ctx = ctx
 	c.mu.Unlock()
 
-	// Start the operator manager in the background
-	go func() {
-		c.log.V(2).Info("starting operator manager")
-
-		if err := c.crdMgr.Start(ctx); err != nil {
-			c.log.Error(err, "operator manager error")
-		}
-	}()
-
 	// Start all operators
 	for _, e := range es {
 		c.startOp(e)
-- 
2.43.0


From 0e4d4268873276d5510b5b99babffbb02d206706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:00 +0000
Subject: [PATCH 20/29] fix: replaced and deleted operators stop before their
 successors start

An operator being stopped could overwrite the targets of the one that replaced it. Adding an operator
while the controller starts could start it twice, and deleting one that has not started crashed.
---
 pkg/kubernetes/controllers/operator.go | 38 ++++++++++++--------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/pkg/kubernetes/controllers/operator.go b/pkg/kubernetes/controllers/operator.go
index e0557d2..62036fb 100644
--- a/pkg/kubernetes/controllers/operator.go
+++ b/pkg/kubernetes/controllers/operator.go
@@ -37,8 +37,8 @@ const StatusChannelBufferSize = 64
 type opEntry struct {
 	op        *operator.Operator
 	errorChan chan error
-	ctx       context.Context    // Operator-specific context
-	cancel    context.CancelFunc // For stopping the operator
+	cancel    context.CancelFunc // For stopping the operator, nil until started
+	done      chan struct{}      // Closed when the operator has stopped
 }
 
 type OpController struct {
@@ -183,10 +183,10 @@ func (c *OpController) GetOperator(name string) *operator.Operator {
 // AddOperator adds an operator to the controller.
 func (c *OpController) AddOperator(op *operator.Operator) {
 	name := op.GetName()
-	e := &opEntry{op: op, errorChan: op.GetErrorChannel()}
+	e := &opEntry{op: op, errorChan: op.GetErrorChannel(), done: make(chan struct{})}
 	c.mu.Lock()
+	defer c.mu.Unlock()
 	c.operators[name] = e
-	c.mu.Unlock()
 
 	// Start the new operator if we are already running
 	if c.started {
@@ -228,7 +228,8 @@ func (c *OpController) UpsertOperator(name string, spec *opv1a1.OperatorSpec) (*
 	return c.AddOperatorFromSpec(name, spec)
 }
 
-// DeleteOperator removes an operator from the controller.
+// DeleteOperator removes an operator from the controller and waits until it stops, so that its writes
+// cannot override those of a new operator that takes its place.
 func (c *OpController) DeleteOperator(name string) {
 	c.mu.Lock()
 	e, ok := c.operators[name]
@@ -237,23 +238,25 @@ func (c *OpController) DeleteOperator(name string) {
 		return
 	}
 	delete(c.operators, name)
+	cancel := e.cancel
 	c.mu.Unlock()
 
 	c.log.V(4).Info("deleting operator", "name", name)
 	e.op.UnregisterGVKs()
-	e.cancel()
+	if cancel != nil {
+		cancel()
+		<-e.done
+	}
 }
 
-// startOp starts error channel aggregation for an operator.
+// startOp starts an operator and error channel aggregation for the operator. The caller must hold the lock.
 func (c *OpController) startOp(e *opEntry) {
 	// Create a context for the operator and start it
 	ctx, cancel := context.WithCancel(c.ctx)
-	c.mu.Lock()
-	e.ctx = ctx
 	e.cancel = cancel
-	c.mu.Unlock()
 
 	go func() {
+		defer close(e.done)
 		if err := e.op.Start(ctx); err != nil {
 			c.errorChan <- err
 			return
@@ -309,23 +312,16 @@ func (c *OpController) Reconcile(ctx context.Context, req reconcile.Request) (re
 // Start starts the controller: the CRD manager (for watching Operator CRDs) and the operators known so
 // far. It blocks.
 func (c *OpController) Start(ctx context.Context) error {
+	// Mark as started and start all operators
+	c.mu.Lock()
 	c.log.V(2).Info("starting operator controller", "num-operators", len(c.operators),
 		"APIServer", fmt.Sprintf("%t", c.apiServer != nil))
-
-	// Mark as started and collect operators to start
-	c.mu.Lock()
-	es := []*opEntry{}
-	for _, e := range c.operators {
-		es = append(es, e)
-	}
 	c.started = true
 	c.ctx = ctx
-	c.mu.Unlock()
-
-	// Start all operators
-	for _, e := range es {
+	for _, e := range c.operators {
 		c.startOp(e)
 	}
+	c.mu.Unlock()
 
 	// Surface errors from operators and generate CRD statuses.
 	go func() {
-- 
2.43.0


From 2f74364f83e4db40ae3c92e63646cac73af2aebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:07 +0000
Subject: [PATCH 21/29] fix: no send on a closed or abandoned error channel
 when the operator controller stops

---
 pkg/kubernetes/controllers/operator.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pkg/kubernetes/controllers/operator.go b/pkg/kubernetes/controllers/operator.go
index 62036fb..325002c 100644
--- a/pkg/kubernetes/controllers/operator.go
+++ b/pkg/kubernetes/controllers/operator.go
@@ -258,8 +258,10 @@ func (c *OpController) startOp(e *opEntry) {
 	go func() {
 		defer close(e.done)
 		if err := e.op.Start(ctx); err != nil {
-			c.errorChan <- err
-			return
+			select {
+			case c.errorChan <- err:
+			case <-ctx.Done():
+			}
 		}
 	}()
 
@@ -268,7 +270,6 @@ func (c *OpController) startOp(e *opEntry) {
 		for {
 			select {
 			case err := <-e.errorChan:
-				// Use non-blocking send to avoid writing to closed channel
 				select {
 				case c.errorChan <- err:
 				case <-ctx.Done():
@@ -323,9 +324,9 @@ func (c *OpController) Start(ctx context.Context) error {
 	}
 	c.mu.Unlock()
 
-	// Surface errors from operators and generate CRD statuses.
+	// Surface errors from operators and generate CRD statuses. The channel is never closed: operators
+	// may still be reporting errors while they stop.
 	go func() {
-		defer close(c.errorChan)
 		for {
 			select {
 			case err := <-c.errorChan:
-- 
2.43.0


From 1d289cfd04ecaa5496516d68ce95fe81407c667f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:37 +0000
Subject: [PATCH 22/29] fix: operator statuses survive API errors and never
 report a replaced operator

Failed status updates were given up, and the status of an operator that has been replaced since could
override that of its successor or claim its generation.
---
 pkg/kubernetes/controllers/operator.go | 88 +++++++++++++++++---------
 1 file changed, 58 insertions(+), 30 deletions(-)

diff --git a/pkg/kubernetes/controllers/operator.go b/pkg/kubernetes/controllers/operator.go
index 325002c..e007aa9 100644
--- a/pkg/kubernetes/controllers/operator.go
+++ b/pkg/kubernetes/controllers/operator.go
@@ -9,6 +9,7 @@ import (
 
 	"github.com/go-logr/logr"
 	apierrors "k8s.io/apimachinery/pkg/api/errors"
+	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
 	"k8s.io/apimachinery/pkg/types"
 	"k8s.io/client-go/rest"
 	"k8s.io/client-go/util/retry"
@@ -37,6 +38,7 @@ const StatusChannelBufferSize = 64
 type opEntry struct {
 	op        *operator.Operator
 	errorChan chan error
+	resource  metav1.ObjectMeta  // The Operator resource the operator was created from, if any
 	cancel    context.CancelFunc // For stopping the operator, nil until started
 	done      chan struct{}      // Closed when the operator has stopped
 }
@@ -171,19 +173,27 @@ func (c *OpController) GetErrorChannel() chan error {
 
 // GetOperator returns the operator with the given name.
 func (c *OpController) GetOperator(name string) *operator.Operator {
-	c.mu.Lock()
-	op, ok := c.operators[name]
-	c.mu.Unlock()
-	if !ok || op == nil {
+	e := c.getEntry(name)
+	if e == nil {
 		return nil
 	}
-	return op.op
+	return e.op
+}
+
+func (c *OpController) getEntry(name string) *opEntry {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	return c.operators[name]
 }
 
 // AddOperator adds an operator to the controller.
 func (c *OpController) AddOperator(op *operator.Operator) {
+	c.addOperator(op, metav1.ObjectMeta{})
+}
+
+func (c *OpController) addOperator(op *operator.Operator, resource metav1.ObjectMeta) {
 	name := op.GetName()
-	e := &opEntry{op: op, errorChan: op.GetErrorChannel(), done: make(chan struct{})}
+	e := &opEntry{op: op, errorChan: op.GetErrorChannel(), resource: resource, done: make(chan struct{})}
 	c.mu.Lock()
 	defer c.mu.Unlock()
 	c.operators[name] = e
@@ -197,6 +207,10 @@ func (c *OpController) AddOperator(op *operator.Operator) {
 // AddOperatorFromSpec registers an operator with the controller using an OperatorSpec.
 // The operator will use the shared operator manager, enabling cross-operator watches.
 func (c *OpController) AddOperatorFromSpec(name string, spec *opv1a1.OperatorSpec) (*operator.Operator, error) {
+	return c.addOperatorFromSpec(name, spec, metav1.ObjectMeta{})
+}
+
+func (c *OpController) addOperatorFromSpec(name string, spec *opv1a1.OperatorSpec, resource metav1.ObjectMeta) (*operator.Operator, error) {
 	c.log.V(4).Info("adding operator", "name", name)
 
 	// Use the shared operator manager for this operator
@@ -211,13 +225,17 @@ func (c *OpController) AddOperatorFromSpec(name string, spec *opv1a1.OperatorSpe
 		return nil, err
 	}
 	op.AddSpec(spec)
-	c.AddOperator(op)
+	c.addOperator(op, resource)
 
 	return op, nil
 }
 
 // UpsertOperator creates or updates an operator.
 func (c *OpController) UpsertOperator(name string, spec *opv1a1.OperatorSpec) (*operator.Operator, error) {
+	return c.upsertOperator(name, spec, metav1.ObjectMeta{})
+}
+
+func (c *OpController) upsertOperator(name string, spec *opv1a1.OperatorSpec, resource metav1.ObjectMeta) (*operator.Operator, error) {
 	c.log.V(4).Info("upserting operator", "name", name)
 
 	// If this is a modification event, first remove old operator and create a new one
@@ -225,7 +243,7 @@ func (c *OpController) UpsertOperator(name string, spec *opv1a1.OperatorSpec) (*
 		c.DeleteOperator(name)
 	}
 
-	return c.AddOperatorFromSpec(name, spec)
+	return c.addOperatorFromSpec(name, spec, resource)
 }
 
 // DeleteOperator removes an operator from the controller and waits until it stops, so that its writes
@@ -300,14 +318,16 @@ func (c *OpController) Reconcile(ctx context.Context, req reconcile.Request) (re
 		return reconcile.Result{}, err
 	}
 
-	op, err := c.UpsertOperator(opName, &spec.Spec)
-	if err != nil {
-		log.Error(err, "failed to upsert Operator")
-		return reconcile.Result{}, err
+	// Nothing to start if we are called again just to update the status
+	if e := c.getEntry(opName); e == nil || e.resource.UID != spec.GetUID() ||
+		e.resource.Generation != spec.GetGeneration() {
+		if _, err := c.upsertOperator(opName, &spec.Spec, spec.ObjectMeta); err != nil {
+			log.Error(err, "failed to upsert Operator")
+			return reconcile.Result{}, err
+		}
 	}
-	c.updateStatus(ctx, op)
 
-	return reconcile.Result{}, nil
+	return reconcile.Result{}, c.updateStatus(ctx, opName)
 }
 
 // Start starts the controller: the CRD manager (for watching Operator CRDs) and the operators known so
@@ -335,11 +355,11 @@ func (c *OpController) Start(ctx context.Context) error {
 					c.log.Error(err, "controller error", "operator", operr.Operator,
 						"controller", operr.Controller)
 
-					if op := c.GetOperator(operr.Operator); op == nil {
+					if c.GetOperator(operr.Operator) == nil {
 						c.log.Error(err, "spurious controller error: operator no longer available",
 							"operator", operr.Operator, "controller", operr.Controller)
 					} else {
-						c.updateStatus(ctx, op)
+						c.updateStatus(ctx, operr.Operator) //nolint:errcheck
 					}
 				} else {
 					c.log.Error(err, "unknown error")
@@ -356,19 +376,19 @@ func (c *OpController) Start(ctx context.Context) error {
 	return c.crdMgr.Start(ctx)
 }
 
-func (c *OpController) updateStatus(ctx context.Context, op *operator.Operator) {
-	key := types.NamespacedName{Name: op.GetName()}
+// updateStatus writes the status of an operator into the corresponding resource.
+func (c *OpController) updateStatus(ctx context.Context, name string) error {
+	key := types.NamespacedName{Name: name}
 
-	// Fetch the Operator CRD once to get the generation, then capture the status snapshot.
-	// This ensures we're applying the same status on all retry attempts, preventing conflicts
-	// caused by the status changing between retries (e.g., new errors being pushed).
-	spec := opv1a1.Operator{}
-	if err := c.k8sClient.Get(ctx, key, &spec); err != nil {
-		c.log.Error(err, "failed to get operator for status update")
-		return
+	e := c.getEntry(name)
+	if e == nil {
+		return nil
 	}
 
-	newStatus := op.GetStatus(spec.GetGeneration())
+	// Capture the status snapshot once.  This ensures we're applying the same status on all retry
+	// attempts, preventing conflicts caused by the status changing between retries (e.g., new
+	// errors being pushed).
+	newStatus := e.op.GetStatus(e.resource.Generation)
 
 	attempt := 0
 	if err := retry.RetryOnConflict(retry.DefaultRetry, func() error {
@@ -377,7 +397,13 @@ func (c *OpController) updateStatus(ctx context.Context, op *operator.Operator)
 		// Refetch the Operator to get the latest resourceVersion
 		spec := opv1a1.Operator{}
 		if err := c.k8sClient.Get(ctx, key, &spec); err != nil {
-			return err
+			return client.IgnoreNotFound(err)
+		}
+
+		// Do not override the status of an operator that has replaced ours in the meantime
+		if c.getEntry(name) != e || spec.GetUID() != e.resource.UID {
+			c.log.V(2).Info("not updating status: operator has been replaced", "name", name)
+			return nil
 		}
 
 		// Use the status snapshot captured before the retry loop
@@ -387,11 +413,13 @@ func (c *OpController) updateStatus(ctx context.Context, op *operator.Operator)
 
 		if err := c.k8sClient.Status().Update(ctx, &spec); err != nil {
 			c.log.Error(err, "failed to update status", "attempt", attempt)
-			return err
+			return client.IgnoreNotFound(err)
 		}
 		return nil
 	}); err != nil {
-		c.log.Error(err, "failed to update opearator status", "name", op.GetName())
-		return
+		c.log.Error(err, "failed to update operator status", "name", name)
+		return err
 	}
+
+	return nil
 }
-- 
2.43.0


From 6f9e229f1e6df3671f5a6e084e30d52eeb3c5f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:05 +0000
Subject: [PATCH 23/29] fix: a malformed controller does not stop the other
 operators

The API server does not validate the pipeline and the predicates of controllers: a single malformed
one prevented all the Operator resources from being listed and watched. Retain such controllers with
the parse error and report it in the status.
---
 main.go                                       |  6 ++
 pkg/api/operator/v1alpha1/controller_types.go |  3 +
 pkg/api/operator/v1alpha1/malformed.go        | 81 +++++++++++++++++++
 pkg/controller/declarative.go                 |  4 +
 4 files changed, 94 insertions(+)
 create mode 100644 pkg/api/operator/v1alpha1/malformed.go

diff --git a/main.go b/main.go
index 09c6d87..04e3ac0 100644
--- a/main.go
+++ b/main.go
@@ -681,6 +681,12 @@ func runVisualize(operatorFile string, cfg visualizeConfig) error {
 		}
 	}
 
+	for i := range op.Spec.Controllers {
+		if err := op.Spec.Controllers[i].ParseError(); err != nil {
+			return fmt.Errorf("failed to parse operator file: %w", err)
+		}
+	}
+
 	// Build graph.
 	graph := visualize.BuildGraph(&op)
 
diff --git a/pkg/api/operator/v1alpha1/controller_types.go b/pkg/api/operator/v1alpha1/controller_types.go
index 56f3ce3..0d973e7 100644
--- a/pkg/api/operator/v1alpha1/controller_types.go
+++ b/pkg/api/operator/v1alpha1/controller_types.go
@@ -22,6 +22,9 @@ type Controller struct {
 	Pipeline Pipeline `json:"pipeline"`
 	// The target resource the results are to be added.
 	Target Target `json:"target"`
+
+	// malformed is set for the controllers of an Operator that cannot be parsed.
+	malformed *malformedController
 }
 
 // Resource specifies a resource by the GVK.
diff --git a/pkg/api/operator/v1alpha1/malformed.go b/pkg/api/operator/v1alpha1/malformed.go
new file mode 100644
index 0000000..f1aafbe
--- /dev/null
+++ b/pkg/api/operator/v1alpha1/malformed.go
@@ -0,0 +1,81 @@
+package v1alpha1
+
+import (
+	"encoding/json"
+	"fmt"
+)
+
+// malformedController is the original and the parse error of a controller that cannot be parsed.
+type malformedController struct {
+	raw json.RawMessage
+	err error
+}
+
+// ParseError returns the error if the controller specification could not be parsed. Such controllers
+// come only from Operator resources, see Operator.UnmarshalJSON.
+func (c *Controller) ParseError() error {
+	if c.malformed == nil {
+		return nil
+	}
+	return c.malformed.err
+}
+
+// MarshalJSON implements custom JSON marshaling for controllers: the ones that could not be parsed are
+// marshaled into the original.
+func (c Controller) MarshalJSON() ([]byte, error) {
+	if c.malformed != nil {
+		return c.malformed.raw, nil
+	}
+	type controller Controller
+	return json.Marshal(controller(c))
+}
+
+// UnmarshalJSON implements custom JSON unmarshaling for Operator resources. The API server does not
+// validate the schemaless fields of controllers (e.g., the pipeline), so the controllers that cannot be
+// parsed are retained with only the name and the error: otherwise a single malformed controller would
+// prevent all the Operator resources from being listed.
+func (o *Operator) UnmarshalJSON(data []byte) error {
+	type operator Operator
+	op := operator{}
+	err := json.Unmarshal(data, &op)
+	if err == nil {
+		*o = Operator(op)
+		return nil
+	}
+
+	var rest map[string]json.RawMessage
+	var spec struct {
+		Controllers []json.RawMessage `json:"controllers"`
+	}
+	if json.Unmarshal(data, &rest) != nil || json.Unmarshal(rest["spec"], &spec) != nil {
+		return err
+	}
+
+	delete(rest, "spec")
+	j, errRest := json.Marshal(rest)
+	if errRest != nil {
+		return err
+	}
+	op = operator{}
+	if errRest := json.Unmarshal(j, &op); errRest != nil {
+		return errRest
+	}
+
+	for i, raw := range spec.Controllers {
+		var c Controller
+		if err := json.Unmarshal(raw, &c); err != nil {
+			var named struct {
+				Name string `json:"name"`
+			}
+			_ = json.Unmarshal(raw, &named)
+			c = Controller{Name: named.Name, malformed: &malformedController{
+				raw: append(json.RawMessage{}, raw...),
+				err: fmt.Errorf("failed to parse controller %d: %w", i, err),
+			}}
+		}
+		op.Spec.Controllers = append(op.Spec.Controllers, c)
+	}
+
+	*o = Operator(op)
+	return nil
+}
diff --git a/pkg/controller/declarative.go b/pkg/controller/declarative.go
index b675508..bb76bec 100644
--- a/pkg/controller/declarative.go
+++ b/pkg/controller/declarative.go
@@ -62,6 +62,10 @@ func NewDeclarative(mgr manager.Manager, operator string, config opv1a1.Controll
 	c.name = name
 	c.log = logger.WithName("controller").WithValues("name", name)
 
+	if err := config.ParseError(); err != nil {
+		return c, c.PushCriticalErrorf("invalid controller configuration: %w", err)
+	}
+
 	if len(config.Sources) == 0 {
 		return c, c.PushCriticalError("invalid controller configuration: no source")
 	}
-- 
2.43.0


From 35ce2e26f5f05811d9fc85ae992a315be724bb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:51 +0000
Subject: [PATCH 24/29] fix: updates through the extension API do not override
 concurrent ones

Changing a view through the API took several steps, so changes made to the
view in between were lost. Changing a view that is being deleted was reported
as an internal error.
---
 pkg/apiserver/storage.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/pkg/apiserver/storage.go b/pkg/apiserver/storage.go
index 600cb98..47cc543 100644
--- a/pkg/apiserver/storage.go
+++ b/pkg/apiserver/storage.go
@@ -2,6 +2,7 @@ package apiserver
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"strings"
 
@@ -16,6 +17,8 @@ import (
 	genericapirequest "k8s.io/apiserver/pkg/endpoints/request"
 	"k8s.io/apiserver/pkg/registry/rest"
 	"sigs.k8s.io/controller-runtime/pkg/client"
+
+	"github.com/l7mp/dcontroller/pkg/cache"
 )
 
 var _ rest.StandardStorage = &ClientDelegatedStorage{}
@@ -186,6 +189,21 @@ func (s *ClientDelegatedStorage) Create(ctx context.Context, obj runtime.Object,
 func (s *ClientDelegatedStorage) Update(ctx context.Context, name string, objInfo rest.UpdatedObjectInfo, createValidation rest.ValidateObjectFunc, updateValidation rest.ValidateObjectUpdateFunc, forceAllowCreate bool, options *metav1.UpdateOptions) (runtime.Object, bool, error) {
 	s.log.V(4).Info("UPDATE", "GVR", s.gvr.String(), "name", name)
 
+	for {
+		obj, created, err := s.update(ctx, name, objInfo, createValidation, updateValidation, forceAllowCreate, options)
+		if !errors.Is(err, errModified) {
+			return obj, created, err
+		}
+		if err := ctx.Err(); err != nil {
+			return nil, false, apierrors.NewTimeoutError(fmt.Sprintf("failed to update %s: %s", name, err), 0)
+		}
+	}
+}
+
+// errModified tells that the object was modified or deleted since the update has read it.
+var errModified = errors.New("object has been modified")
+
+func (s *ClientDelegatedStorage) update(ctx context.Context, name string, objInfo rest.UpdatedObjectInfo, createValidation rest.ValidateObjectFunc, updateValidation rest.ValidateObjectUpdateFunc, forceAllowCreate bool, options *metav1.UpdateOptions) (runtime.Object, bool, error) {
 	// Get current object.
 	currentObj, err := s.Get(ctx, name, &metav1.GetOptions{})
 	if err != nil {
@@ -201,6 +219,8 @@ func (s *ClientDelegatedStorage) Update(ctx context.Context, name string, objInf
 		return nil, false, err
 	}
 
+	unchanged := cache.IfUnchanged(currentObj.(*unstructured.Unstructured))
+
 	// Get updated object.
 	updatedObj, err := objInfo.UpdatedObject(ctx, currentObj)
 	if err != nil {
@@ -222,7 +242,11 @@ func (s *ClientDelegatedStorage) Update(ctx context.Context, name string, objInf
 	// Ensure GVK is set correctly.
 	unstructuredObj.SetGroupVersionKind(s.gvk)
 
-	if err := s.delegatingClient.Update(ctx, unstructuredObj, &client.UpdateOptions{Raw: options}); err != nil {
+	// Views have no resource version: make sure the object is still the one the update is based on.
+	if err := s.delegatingClient.Update(ctx, unstructuredObj, unchanged, &client.UpdateOptions{Raw: options}); err != nil {
+		if apierrors.IsNotFound(err) || apierrors.IsConflict(err) {
+			return nil, false, errModified
+		}
 		return nil, false, apierrors.NewInternalError(fmt.Errorf("failed to update %s: %w", name, err))
 	}
 
-- 
2.43.0


From 1c450b4aeafeec3b43a2d14f3af880348f42aaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:59 +0000
Subject: [PATCH 25/29] fix: the extension API honours dry runs, refuses views
 with no name, and answers 404 for unknown paths

---
 pkg/apiserver/dynamic_discovery.go |  2 +-
 pkg/apiserver/resource_handler.go  |  6 +++---
 pkg/apiserver/storage.go           | 33 +++++++++++++++++++++++++++++-
 3 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/pkg/apiserver/dynamic_discovery.go b/pkg/apiserver/dynamic_discovery.go
index ff4168f..a261e02 100644
--- a/pkg/apiserver/dynamic_discovery.go
+++ b/pkg/apiserver/dynamic_discovery.go
@@ -39,7 +39,7 @@ func (h *dynamicGroupHandler) ServeHTTP(w http.ResponseWriter, req *http.Request
 		h.log.V(5).Info("not a group discovery request, delegating",
 			"path", req.URL.Path, "pathParts", len(pathParts))
 		// h.delegate.ServeHTTP(w, req)
-		http.Error(w, "not a group discovery request", http.StatusBadRequest)
+		http.Error(w, "not a group discovery request", http.StatusNotFound)
 		return
 	}
 
diff --git a/pkg/apiserver/resource_handler.go b/pkg/apiserver/resource_handler.go
index 3e894c1..58a5af8 100644
--- a/pkg/apiserver/resource_handler.go
+++ b/pkg/apiserver/resource_handler.go
@@ -184,12 +184,12 @@ func (h *resourceHandler) routeRequest(
 		handlers.PatchResource(storage, scope, admit, supportedTypes)(w, req)
 
 	case "delete":
-		gracefulDeleter := false
+		allowsOptions := true
 		admit := admission.NewChainHandler()
-		handlers.DeleteResource(storage, gracefulDeleter, scope, admit)(w, req)
+		handlers.DeleteResource(storage, allowsOptions, scope, admit)(w, req)
 
 	case "deletecollection":
-		checkBody := false
+		checkBody := true
 		admit := admission.NewChainHandler()
 		handlers.DeleteCollection(storage, checkBody, scope, admit)(w, req)
 
diff --git a/pkg/apiserver/storage.go b/pkg/apiserver/storage.go
index 47cc543..79140f6 100644
--- a/pkg/apiserver/storage.go
+++ b/pkg/apiserver/storage.go
@@ -13,9 +13,12 @@ import (
 	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
 	"k8s.io/apimachinery/pkg/runtime"
 	"k8s.io/apimachinery/pkg/runtime/schema"
+	"k8s.io/apimachinery/pkg/util/validation/field"
 	"k8s.io/apimachinery/pkg/watch"
 	genericapirequest "k8s.io/apiserver/pkg/endpoints/request"
 	"k8s.io/apiserver/pkg/registry/rest"
+	"k8s.io/apiserver/pkg/storage/names"
+	"k8s.io/apiserver/pkg/util/dryrun"
 	"sigs.k8s.io/controller-runtime/pkg/client"
 
 	"github.com/l7mp/dcontroller/pkg/cache"
@@ -173,6 +176,18 @@ func (s *ClientDelegatedStorage) Create(ctx context.Context, obj runtime.Object,
 		}
 	}
 
+	if unstructuredObj.GetName() == "" && unstructuredObj.GetGenerateName() != "" {
+		unstructuredObj.SetName(names.SimpleNameGenerator.GenerateName(unstructuredObj.GetGenerateName()))
+	}
+	if unstructuredObj.GetName() == "" {
+		return nil, apierrors.NewInvalid(s.gvk.GroupKind(), "", field.ErrorList{
+			field.Required(field.NewPath("metadata", "name"), "name or generateName is required")})
+	}
+
+	if options != nil && dryrun.IsDryRun(options.DryRun) {
+		return unstructuredObj, nil
+	}
+
 	if err := s.delegatingClient.Create(ctx, unstructuredObj, &client.CreateOptions{Raw: options}); err != nil {
 		if apierrors.IsAlreadyExists(err) {
 			return nil, apierrors.NewAlreadyExists(s.gvr.GroupResource(), unstructuredObj.GetName())
@@ -213,7 +228,11 @@ func (s *ClientDelegatedStorage) update(ctx context.Context, name string, objInf
 			if err != nil {
 				return nil, false, err
 			}
-			createdObj, err := s.Create(ctx, newObj, createValidation, &metav1.CreateOptions{})
+			createOptions := &metav1.CreateOptions{}
+			if options != nil {
+				createOptions.DryRun = options.DryRun
+			}
+			createdObj, err := s.Create(ctx, newObj, createValidation, createOptions)
 			return createdObj, true, err
 		}
 		return nil, false, err
@@ -242,6 +261,10 @@ func (s *ClientDelegatedStorage) update(ctx context.Context, name string, objInf
 	// Ensure GVK is set correctly.
 	unstructuredObj.SetGroupVersionKind(s.gvk)
 
+	if options != nil && dryrun.IsDryRun(options.DryRun) {
+		return unstructuredObj, false, nil
+	}
+
 	// Views have no resource version: make sure the object is still the one the update is based on.
 	if err := s.delegatingClient.Update(ctx, unstructuredObj, unchanged, &client.UpdateOptions{Raw: options}); err != nil {
 		if apierrors.IsNotFound(err) || apierrors.IsConflict(err) {
@@ -273,6 +296,10 @@ func (s *ClientDelegatedStorage) Delete(ctx context.Context, name string, delete
 	}
 
 	unstructuredObj := obj.(*unstructured.Unstructured)
+	if options != nil && dryrun.IsDryRun(options.DryRun) {
+		return unstructuredObj, true, nil
+	}
+
 	if err := s.delegatingClient.Delete(ctx, unstructuredObj, &client.DeleteOptions{Raw: options}); err != nil {
 		if client.IgnoreNotFound(err) == nil {
 			return nil, false, apierrors.NewNotFound(s.gvr.GroupResource(), name)
@@ -306,6 +333,10 @@ func (s *ClientDelegatedStorage) DeleteCollection(ctx context.Context, deleteVal
 			}
 		}
 
+		if options != nil && dryrun.IsDryRun(options.DryRun) {
+			continue
+		}
+
 		if err := s.delegatingClient.Delete(ctx, &item, &client.DeleteOptions{Raw: options}); err != nil {
 			s.log.Info("Failed to delete object", "item",
 				fmt.Sprintf("%s/%s", item.GetNamespace(), item.GetName()), "error", err.Error())
-- 
2.43.0


From 7984e72cc06f2f50ee1eb68a41faa9d360937f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:20 +0000
Subject: [PATCH 26/29] fix: concurrent requests for the discovery document of
 a group do not share its object

---
 pkg/apiserver/dynamic_discovery.go | 8 ++++----
 pkg/apiserver/registry.go          | 8 ++++++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/pkg/apiserver/dynamic_discovery.go b/pkg/apiserver/dynamic_discovery.go
index a261e02..37073d2 100644
--- a/pkg/apiserver/dynamic_discovery.go
+++ b/pkg/apiserver/dynamic_discovery.go
@@ -16,15 +16,15 @@ import (
 // It implements a pattern similar to how Kubernetes CRDs handle dynamic API groups.
 type dynamicGroupHandler struct {
 	mu       sync.RWMutex
-	handlers map[string]*discovery.APIGroupHandler // group name -> handler
-	delegate http.Handler                          // fallback handler
+	handlers map[string]http.Handler // group name -> handler
+	delegate http.Handler            // fallback handler
 	log      logr.Logger
 }
 
 // newDynamicGroupHandler creates a new dynamic group discovery handler.
 func newDynamicGroupHandler(delegate http.Handler, log logr.Logger) *dynamicGroupHandler {
 	return &dynamicGroupHandler{
-		handlers: make(map[string]*discovery.APIGroupHandler),
+		handlers: make(map[string]http.Handler),
 		delegate: delegate,
 		log:      log,
 	}
@@ -64,7 +64,7 @@ func (h *dynamicGroupHandler) ServeHTTP(w http.ResponseWriter, req *http.Request
 
 // setHandler registers or updates a handler for the given group.
 // This is safe to call multiple times for the same group (idempotent).
-func (h *dynamicGroupHandler) setHandler(group string, handler *discovery.APIGroupHandler) {
+func (h *dynamicGroupHandler) setHandler(group string, handler http.Handler) {
 	h.mu.Lock()
 	defer h.mu.Unlock()
 
diff --git a/pkg/apiserver/registry.go b/pkg/apiserver/registry.go
index db83984..c1c828d 100644
--- a/pkg/apiserver/registry.go
+++ b/pkg/apiserver/registry.go
@@ -2,6 +2,7 @@ package apiserver
 
 import (
 	"fmt"
+	"net/http"
 
 	apidiscoveryv2 "k8s.io/api/apidiscovery/v2"
 	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
@@ -175,8 +176,11 @@ func (s *APIServer) registerDiscoveryHandlers(group string, gvks []schema.GroupV
 		PreferredVersion: apiVersionsForDiscovery[0], // First version is preferred
 	}
 
-	// Register with our dynamic handler for /apis/<group>
-	s.dynamicGroupHandler.setHandler(group, discovery.NewAPIGroupHandler(s.codecs, apiGroup))
+	// Register with our dynamic handler for /apis/<group>. Encoding writes into the group object of
+	// the handler so concurrent requests cannot share one.
+	s.dynamicGroupHandler.setHandler(group, http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
+		discovery.NewAPIGroupHandler(s.codecs, apiGroup).ServeHTTP(w, req)
+	}))
 
 	// Register with BOTH discovery managers for /apis endpoint:
 	// 1. Legacy v1 discovery (returns APIGroupList)
-- 
2.43.0


From ecf4c5a1a07bb9a99161239882088aaef313a04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:25 +0000
Subject: [PATCH 27/29] fix: API groups can be re-registered with fewer or no
 kinds, and while requests use them

---
 pkg/apiserver/builder.go          |  2 -
 pkg/apiserver/registry.go         | 85 +++++++++++++++++++++----------
 pkg/apiserver/resource_handler.go | 34 ++++++-------
 3 files changed, 73 insertions(+), 48 deletions(-)

diff --git a/pkg/apiserver/builder.go b/pkg/apiserver/builder.go
index 0eb4e28..a52c01e 100644
--- a/pkg/apiserver/builder.go
+++ b/pkg/apiserver/builder.go
@@ -57,8 +57,6 @@ func (s *APIServer) buildServer() error {
 	// Chain: resourceHandler -> dynamicVersionHandler -> dynamicGroupHandler -> go-restful
 	resourceHandler := newResourceHandler(resourceHandlerConfig{
 		delegatingClient: s.delegatingClient,
-		scheme:           s.scheme,
-		codecs:           s.codecs,
 		delegate:         s.dynamicVersionHandler,
 		log:              s.log,
 	})
diff --git a/pkg/apiserver/registry.go b/pkg/apiserver/registry.go
index c1c828d..eff7806 100644
--- a/pkg/apiserver/registry.go
+++ b/pkg/apiserver/registry.go
@@ -7,6 +7,7 @@ import (
 	apidiscoveryv2 "k8s.io/api/apidiscovery/v2"
 	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
 	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
+	"k8s.io/apimachinery/pkg/runtime"
 	"k8s.io/apimachinery/pkg/runtime/schema"
 	"k8s.io/apiserver/pkg/endpoints/discovery"
 
@@ -59,12 +60,22 @@ func (s *APIServer) RegisterAPIGroup(group string, gvks []schema.GroupVersionKin
 		return nil
 	}
 
-	// 1. Add types to scheme (idempotent operation).
-	if err := s.addTypesToScheme(gvks); err != nil {
+	if len(gvks) == 0 {
+		s.unregisterAPIGroup(group)
+		return nil
+	}
+
+	// 1. Create a scheme with the types: schemes cannot be modified while requests are using them.
+	scheme, codecs, err := s.createSchemeAndCodecs()
+	if err != nil {
+		return fmt.Errorf("failed to create scheme: %w", err)
+	}
+	if err := s.addTypesToScheme(scheme, gvks); err != nil {
 		return fmt.Errorf("failed to add types to scheme: %w", err)
 	}
 
 	// 2. Register storage in resourceHandler (fully dynamic, no InstallAPIGroup).
+	gvrs := map[schema.GroupVersionResource]bool{}
 	for _, gvk := range gvks {
 		resource, err := s.findAPIResource(gvk)
 		if err != nil {
@@ -78,14 +89,18 @@ func (s *APIServer) RegisterAPIGroup(group string, gvks []schema.GroupVersionKin
 			Resource: resource.APIResource.Name,
 		}
 
-		if err := s.resourceHandler.addStorage(gvr, gvk, resource); err != nil {
+		if err := s.resourceHandler.addStorage(gvr, gvk, resource, scheme, codecs); err != nil {
 			return fmt.Errorf("failed to add storage for %s: %w", gvk.String(), err)
 		}
+		gvrs[gvr] = true
 	}
 
 	// 3. Register discovery handlers (idempotent).
 	s.registerDiscoveryHandlers(group, gvks)
 
+	// Remove the resources of the group that are no longer there.
+	s.removeResources(s.groupGVKs[group], gvrs)
+
 	// 4. Update GVK cache.
 	groupedGVKs := make(map[schema.GroupVersionKind]bool)
 	for _, gvk := range gvks {
@@ -106,33 +121,21 @@ func (s *APIServer) UnregisterAPIGroup(group string) {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
+	s.unregisterAPIGroup(group)
+}
+
+// unregisterAPIGroup removes an API group. The caller must hold the lock.
+func (s *APIServer) unregisterAPIGroup(group string) {
 	gvks, ok := s.groupGVKs[group]
 	if !ok {
 		// Not registered, silently return.
 		return
 	}
 
-	// Remove storage from resourceHandler.
-	for gvk := range gvks {
-		resource, err := s.findAPIResource(gvk)
-		if err != nil {
-			continue
-		}
+	s.removeResources(gvks, nil)
 
-		gvr := schema.GroupVersionResource{
-			Group:    gvk.Group,
-			Version:  gvk.Version,
-			Resource: resource.APIResource.Name,
-		}
-
-		s.resourceHandler.removeStorage(gvr)
-	}
-
-	// Remove discovery handlers.
+	// Remove discovery handler.
 	s.dynamicGroupHandler.removeHandler(group)
-	for gvk := range gvks {
-		s.dynamicVersionHandler.removeHandler(gvk.Group, gvk.Version)
-	}
 
 	// Remove from both discovery managers.
 	s.server.DiscoveryGroupManager.RemoveGroup(group)
@@ -150,6 +153,30 @@ func (s *APIServer) UnregisterAPIGroup(group string) {
 	s.log.Info("API group unregistered", "group", group)
 }
 
+// removeResources removes a set of GVKs, except for the ones with the resource or the version kept.
+func (s *APIServer) removeResources(gvks map[schema.GroupVersionKind]bool, kept map[schema.GroupVersionResource]bool) {
+	keptVersions := map[schema.GroupVersion]bool{}
+	for gvr := range kept {
+		keptVersions[gvr.GroupVersion()] = true
+	}
+
+	for gvk := range gvks {
+		if resource, err := s.findAPIResource(gvk); err == nil {
+			gvr := gvk.GroupVersion().WithResource(resource.APIResource.Name)
+			if !kept[gvr] {
+				s.resourceHandler.removeStorage(gvr)
+			}
+		}
+
+		if gv := gvk.GroupVersion(); !keptVersions[gv] {
+			s.dynamicVersionHandler.removeHandler(gv.Group, gv.Version)
+			if s.server.AggregatedDiscoveryGroupManager != nil {
+				s.server.AggregatedDiscoveryGroupManager.RemoveGroupVersion(metav1.GroupVersion(gv))
+			}
+		}
+	}
+}
+
 // registerDiscoveryHandlers creates and registers discovery handlers for a group.
 // This function is idempotent and can be called multiple times to update discovery info.
 func (s *APIServer) registerDiscoveryHandlers(group string, gvks []schema.GroupVersionKind) {
@@ -203,7 +230,9 @@ func (s *APIServer) registerDiscoveryHandlers(group string, gvks []schema.GroupV
 			}
 
 			// v1 format
-			apiResources = append(apiResources, *resource.APIResource)
+			apiResource := *resource.APIResource
+			apiResource.Verbs = []string{"get", "list", "create", "update", "patch", "delete", "watch"}
+			apiResources = append(apiResources, apiResource)
 
 			// v2 format for aggregated discovery
 			discoveryResources = append(discoveryResources, apidiscoveryv2.APIResourceDiscovery{
@@ -237,7 +266,7 @@ func (s *APIServer) registerDiscoveryHandlers(group string, gvks []schema.GroupV
 }
 
 // addTypesToScheme adds a set of GVKs to the scheme.
-func (s *APIServer) addTypesToScheme(gvks []schema.GroupVersionKind) error {
+func (s *APIServer) addTypesToScheme(scheme *runtime.Scheme, gvks []schema.GroupVersionKind) error {
 	// Group GVKs by GroupVersion
 	groupVersions := make(map[schema.GroupVersion][]schema.GroupVersionKind)
 	for _, gvk := range gvks {
@@ -249,17 +278,17 @@ func (s *APIServer) addTypesToScheme(gvks []schema.GroupVersionKind) error {
 	for gv, gvkList := range groupVersions {
 		for _, gvk := range gvkList {
 			// Add meta types for this group version if not already added
-			metav1.AddToGroupVersion(s.scheme, gv)
+			metav1.AddToGroupVersion(scheme, gv)
 
 			// Register the unstructured types
-			s.scheme.AddKnownTypeWithName(gvk, &unstructured.Unstructured{})
-			s.scheme.AddKnownTypeWithName(listGVK(gvk), &unstructured.UnstructuredList{})
+			scheme.AddKnownTypeWithName(gvk, &unstructured.Unstructured{})
+			scheme.AddKnownTypeWithName(listGVK(gvk), &unstructured.UnstructuredList{})
 
 			s.log.V(4).Info("added types to scheme", "GVK", gvk.String())
 		}
 
 		// Update version priority for this group
-		if err := s.scheme.SetVersionPriority(gv); err != nil {
+		if err := scheme.SetVersionPriority(gv); err != nil {
 			return fmt.Errorf("failed to set version priority for %s: %w", gv.String(), err)
 		}
 	}
diff --git a/pkg/apiserver/resource_handler.go b/pkg/apiserver/resource_handler.go
index 58a5af8..d51baa3 100644
--- a/pkg/apiserver/resource_handler.go
+++ b/pkg/apiserver/resource_handler.go
@@ -36,8 +36,6 @@ type resourceHandler struct {
 
 	// Configuration.
 	delegatingClient client.Client
-	scheme           *runtime.Scheme
-	codecs           runtime.NegotiatedSerializer
 
 	// Delegate for non-dynamic requests.
 	delegate http.Handler
@@ -48,8 +46,6 @@ type resourceHandler struct {
 // resourceHandlerConfig provides configuration for creating a resourceHandler.
 type resourceHandlerConfig struct {
 	delegatingClient client.Client
-	scheme           *runtime.Scheme
-	codecs           runtime.NegotiatedSerializer
 	delegate         http.Handler
 	log              logr.Logger
 }
@@ -67,8 +63,6 @@ type servingInfo struct {
 func newResourceHandler(config resourceHandlerConfig) *resourceHandler {
 	handler := &resourceHandler{
 		delegatingClient: config.delegatingClient,
-		scheme:           config.scheme,
-		codecs:           config.codecs,
 		delegate:         config.delegate,
 		log:              config.log,
 	}
@@ -202,12 +196,14 @@ func (h *resourceHandler) routeRequest(
 // addStorage registers a new GVR/GVK dynamically.
 func (h *resourceHandler) addStorage(gvr schema.GroupVersionResource,
 	gvk schema.GroupVersionKind,
-	resource *Resource) error {
+	resource *Resource,
+	scheme *runtime.Scheme,
+	codecs runtime.NegotiatedSerializer) error {
 	h.storageLock.Lock()
 	defer h.storageLock.Unlock()
 
 	// Create serving info.
-	info, err := h.createServingInfo(gvr, gvk, resource)
+	info, err := h.createServingInfo(gvr, gvk, resource, scheme, codecs)
 	if err != nil {
 		return fmt.Errorf("failed to create serving info: %w", err)
 	}
@@ -252,6 +248,8 @@ func (h *resourceHandler) createServingInfo(
 	gvr schema.GroupVersionResource,
 	gvk schema.GroupVersionKind,
 	resource *Resource,
+	scheme *runtime.Scheme,
+	codecs runtime.NegotiatedSerializer,
 ) (*servingInfo, error) {
 	// Create ClientDelegatedStorage.
 	delegatingWatcher, ok := h.delegatingClient.(client.WithWatch)
@@ -274,9 +272,9 @@ func (h *resourceHandler) createServingInfo(
 	typeConverter := managedfields.NewDeducedTypeConverter()
 	fieldManager, err := managedfields.NewDefaultCRDFieldManager(
 		typeConverter,
-		h.scheme, // objectConverter
-		h.scheme, // objectDefaulter
-		h.scheme, // objectCreater
+		scheme, // objectConverter
+		scheme, // objectDefaulter
+		scheme, // objectCreater
 		gvk,
 		gvk.GroupVersion(),
 		"",  // subresource (empty for main resource)
@@ -293,13 +291,13 @@ func (h *resourceHandler) createServingInfo(
 			Namer:         runtime.Namer(meta.NewAccessor()),
 			ClusterScoped: !resource.APIResource.Namespaced,
 		},
-		Serializer:      h.codecs,
-		ParameterCodec:  runtime.NewParameterCodec(h.scheme),
-		Creater:         h.scheme, //nolint:misspell
-		Convertor:       h.scheme,
-		Defaulter:       h.scheme,
-		Typer:           h.scheme,
-		UnsafeConvertor: runtime.UnsafeObjectConvertor(h.scheme),
+		Serializer:      codecs,
+		ParameterCodec:  runtime.NewParameterCodec(scheme),
+		Creater:         scheme, //nolint:misspell
+		Convertor:       scheme,
+		Defaulter:       scheme,
+		Typer:           scheme,
+		UnsafeConvertor: runtime.UnsafeObjectConvertor(scheme),
 		TableConvertor:  storage, // For kubectl output.
 
 		Resource:         gvr,
-- 
2.43.0


From 110f4b8a32601aa211e8745f7ca2453baa113610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:25 +0000
Subject: [PATCH 28/29] fix: stopping the API server ends its watches and waits
 for its connections

---
 pkg/apiserver/apiserver.go | 20 +++++++++++++++++++-
 pkg/apiserver/builder.go   | 11 ++++++++++-
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/pkg/apiserver/apiserver.go b/pkg/apiserver/apiserver.go
index 8874cee..762c580 100644
--- a/pkg/apiserver/apiserver.go
+++ b/pkg/apiserver/apiserver.go
@@ -74,6 +74,9 @@ type APIServer struct {
 
 	// Lifecycle management
 	running bool
+	// Cancelled when the server is asked to stop, to end the watches of the clients.
+	stopping context.Context
+	stop     context.CancelFunc
 
 	log logr.Logger
 }
@@ -92,6 +95,7 @@ func NewAPIServer(config Config) (*APIServer, error) {
 		groupGVKs:        make(GroupGVKs),
 		log:              log,
 	}
+	s.stopping, s.stop = context.WithCancel(context.Background())
 
 	// Build and run the server
 	if err := s.buildServer(); err != nil {
@@ -156,20 +160,34 @@ func (s *APIServer) runServerInstance(ctx context.Context) error {
 		s.mu.Unlock()
 	}()
 
+	ctx, cancel := context.WithCancel(ctx)
+	var wg sync.WaitGroup
+	defer wg.Wait()
+	defer cancel()
+
+	context.AfterFunc(ctx, s.stop)
+
 	if s.config.HTTPMode {
 		s.log.V(2).Info("starting insecure API server", "addr", s.insecureListener.Addr())
 
 		s.insecureServer = &http.Server{Handler: s.server.Handler} //nolint:gosec
+		wg.Add(2)
 		go func() {
+			defer wg.Done()
 			if err := s.insecureServer.Serve(s.insecureListener); err != nil && err != http.ErrServerClosed {
 				s.log.Error(err, "HTTP server error")
 			}
 		}()
 
 		go func() {
+			defer wg.Done()
 			<-ctx.Done()
-			if err := s.insecureServer.Shutdown(context.Background()); err != nil {
+			shutdownCtx, cancel := context.WithTimeout(context.Background(), s.server.ShutdownTimeout)
+			defer cancel()
+			if err := s.insecureServer.Shutdown(shutdownCtx); err != nil {
 				s.log.Error(err, "failed to shutdown HTTP server")
+				// do not wait for the remaining connections any more
+				s.insecureServer.Close() //nolint:errcheck
 			}
 		}()
 	}
diff --git a/pkg/apiserver/builder.go b/pkg/apiserver/builder.go
index a52c01e..27122ac 100644
--- a/pkg/apiserver/builder.go
+++ b/pkg/apiserver/builder.go
@@ -1,6 +1,7 @@
 package apiserver
 
 import (
+	"context"
 	"fmt"
 	"math/rand/v2"
 	"net"
@@ -12,6 +13,7 @@ import (
 	"k8s.io/apimachinery/pkg/runtime/serializer"
 	genericapifilters "k8s.io/apiserver/pkg/endpoints/filters"
 	openapiendpoints "k8s.io/apiserver/pkg/endpoints/openapi"
+	genericapirequest "k8s.io/apiserver/pkg/endpoints/request"
 	genericapiserver "k8s.io/apiserver/pkg/server"
 	genericfilters "k8s.io/apiserver/pkg/server/filters"
 	genericoptions "k8s.io/apiserver/pkg/server/options"
@@ -79,6 +81,11 @@ func (s *APIServer) buildServer() error {
 	return nil
 }
 
+// shutdownSignal tells the request handlers that the server is being stopped.
+type shutdownSignal struct{ ctx context.Context }
+
+func (s shutdownSignal) ShuttingDown() <-chan struct{} { return s.ctx.Done() }
+
 // createSchemeAndCodecs creates a minimal scheme with unstructured types and codecs
 func (s *APIServer) createSchemeAndCodecs() (*runtime.Scheme, runtime.NegotiatedSerializer, error) {
 	scheme := runtime.NewScheme()
@@ -171,7 +178,9 @@ func (s *APIServer) createServerConfig() (*genericapiserver.RecommendedConfig, e
 				dump = []byte{}
 			}
 			s.log.Info("HTTP Request", "method", r.Method, "path", r.URL.Path, "content", string(dump))
-			nextHandler.ServeHTTP(w, r)
+			// Watches end when the server is stopped
+			ctx := genericapirequest.WithServerShutdownSignal(r.Context(), shutdownSignal{s.stopping})
+			nextHandler.ServeHTTP(w, r.WithContext(ctx))
 		})
 		return handler
 	}
-- 
2.43.0


From 5175272c33607d086f0bdd13c174c368bfb08adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:25 +0000
Subject: [PATCH 29/29] fix: the two ends of a wildcard pattern must not
 overlap in the value

---
 pkg/auth/rbac.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/auth/rbac.go b/pkg/auth/rbac.go
index 39f0c67..d23a17b 100644
--- a/pkg/auth/rbac.go
+++ b/pkg/auth/rbac.go
@@ -127,7 +127,7 @@ func matchesWildcard(pattern, value string) bool {
 
 	// Handle middle wildcard: "foo*bar" (split on first *)
 	parts := strings.SplitN(pattern, "*", 2)
-	if len(parts) == 2 {
+	if len(parts) == 2 && len(value) >= len(parts[0])+len(parts[1]) {
 		return strings.HasPrefix(value, parts[0]) && strings.HasSuffix(value, parts[1])
 	}
 
-- 
2.43.0

