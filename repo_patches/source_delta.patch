From ac11415d3da98685355c2f3c03ad310b20a2d1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:04 +0000
Subject: [PATCH 01/32] fix: guard the policy store's maps with a lock
 (concurrent map access crashed the adapter)

---
 adapter/policy/store/policy/localstore.go | 27 +++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/adapter/policy/store/policy/localstore.go b/adapter/policy/store/policy/localstore.go
index 483c141..cf45045 100644
--- a/adapter/policy/store/policy/localstore.go
+++ b/adapter/policy/store/policy/localstore.go
@@ -1,6 +1,8 @@
 package policy
 
 import (
+	"sync"
+
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver/keyset"
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/client"
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
@@ -9,6 +11,9 @@ import (
 
 // LocalStore is responsible for storing and managing policy/client data
 type LocalStore struct {
+	// mutex protects all fields below: requests read the store while
+	// the controllers update it
+	mutex sync.RWMutex
 	// clients maps client_name -> client_config
 	clients map[string]client.Client // oidc config ClientName:Client
 	// policies maps endpoint -> list of actions
@@ -29,6 +34,8 @@ func New() PolicyStore {
 }
 
 func (l *LocalStore) GetKeySet(clientName string) keyset.KeySet {
+	l.mutex.RLock()
+	defer l.mutex.RUnlock()
 	if l.keysets != nil {
 		return l.keysets[clientName]
 	}
@@ -36,6 +43,8 @@ func (l *LocalStore) GetKeySet(clientName string) keyset.KeySet {
 }
 
 func (l *LocalStore) AddKeySet(clientName string, jwks keyset.KeySet) {
+	l.mutex.Lock()
+	defer l.mutex.Unlock()
 	if l.keysets == nil {
 		l.keysets = make(map[string]keyset.KeySet)
 	}
@@ -43,6 +52,8 @@ func (l *LocalStore) AddKeySet(clientName string, jwks keyset.KeySet) {
 }
 
 func (l *LocalStore) DeleteKeySet(clientName string) {
+	l.mutex.Lock()
+	defer l.mutex.Unlock()
 	if l.keysets != nil {
 		delete(l.keysets, clientName)
 	}
@@ -50,6 +61,8 @@ func (l *LocalStore) DeleteKeySet(clientName string) {
 
 
 func (l *LocalStore) GetClient(clientName string) client.Client {
+	l.mutex.RLock()
+	defer l.mutex.RUnlock()
 	if l.clients != nil {
 		return l.clients[clientName]
 	}
@@ -57,6 +70,8 @@ func (l *LocalStore) GetClient(clientName string) client.Client {
 }
 
 func (l *LocalStore) AddClient(clientName string, clientObject client.Client) {
+	l.mutex.Lock()
+	defer l.mutex.Unlock()
 	if l.clients == nil {
 		l.clients = make(map[string]client.Client)
 	}
@@ -64,12 +79,16 @@ func (l *LocalStore) AddClient(clientName string, clientObject client.Client) {
 }
 
 func (l *LocalStore) DeleteClient(clientName string) {
+	l.mutex.Lock()
+	defer l.mutex.Unlock()
 	if l.clients != nil {
 		delete(l.clients, clientName)
 	}
 }
 
 func (l *LocalStore) GetPolicies(endpoint policy.Endpoint) policy.RoutePolicy {
+	l.mutex.RLock()
+	defer l.mutex.RUnlock()
 	if l.policies != nil && l.policies[endpoint.Service] != nil {
 		actions, ok := (l.policies[endpoint.Service].GetActions(endpoint.Path)).(policy.Actions)
 		if ok {
@@ -87,6 +106,8 @@ func (l *LocalStore) GetPolicies(endpoint policy.Endpoint) policy.RoutePolicy {
 }
 
 func (s *LocalStore) SetPolicies(endpoint policy.Endpoint, actions policy.RoutePolicy) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	if s.policies == nil {
 		s.policies = make(map[policy.Service]pathtrie.Trie)
 	}
@@ -104,6 +125,8 @@ func (s *LocalStore) SetPolicies(endpoint policy.Endpoint, actions policy.RouteP
 }
 
 func (s *LocalStore) GetPolicyMapping(policy string) []policy.PolicyMapping {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
 	if s.policyMappings != nil {
 		return s.policyMappings[policy]
 	}
@@ -111,12 +134,16 @@ func (s *LocalStore) GetPolicyMapping(policy string) []policy.PolicyMapping {
 }
 
 func (s *LocalStore) DeletePolicyMapping(policy string) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	if s.policyMappings != nil {
 		delete(s.policyMappings, policy)
 	}
 }
 
 func (s *LocalStore) AddPolicyMapping(name string, mapping []policy.PolicyMapping) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	if s.policyMappings == nil {
 		s.policyMappings = make(map[string][]policy.PolicyMapping)
 	}
-- 
2.43.0


From 22566ffb00ca5b11fc4caa58805737feb317444d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:54 +0000
Subject: [PATCH 02/32] fix: a path silent about a method, or released, must
 not hide the prefix protecting it

---
 adapter/policy/store/policy/localstore.go | 30 ++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/adapter/policy/store/policy/localstore.go b/adapter/policy/store/policy/localstore.go
index cf45045..c630066 100644
--- a/adapter/policy/store/policy/localstore.go
+++ b/adapter/policy/store/policy/localstore.go
@@ -1,6 +1,7 @@
 package policy
 
 import (
+	"strings"
 	"sync"
 
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver/keyset"
@@ -90,8 +91,13 @@ func (l *LocalStore) GetPolicies(endpoint policy.Endpoint) policy.RoutePolicy {
 	l.mutex.RLock()
 	defer l.mutex.RUnlock()
 	if l.policies != nil && l.policies[endpoint.Service] != nil {
-		actions, ok := (l.policies[endpoint.Service].GetActions(endpoint.Path)).(policy.Actions)
-		if ok {
+		// Most specific path first. A path that is silent about the method
+		// must not hide a less specific prefix that does protect it.
+		for _, path := range pathCandidates(endpoint.Path) {
+			actions, ok := (l.policies[endpoint.Service].Get(path)).(policy.Actions)
+			if !ok {
+				continue
+			}
 			result, present := actions[endpoint.Method]
 			if present { // found actions for method
 				return result
@@ -105,6 +111,20 @@ func (l *LocalStore) GetPolicies(endpoint policy.Endpoint) policy.RoutePolicy {
 	return policy.NewRoutePolicy()
 }
 
+// pathCandidates lists the stored paths that may cover the given path: the path
+// itself followed by the prefixes enclosing it, from the longest to "/*"
+func pathCandidates(path string) []string {
+	candidates := []string{path}
+	for prefix := strings.TrimSuffix(path, "/"); ; {
+		candidates = append(candidates, prefix+"/*")
+		end := strings.LastIndexByte(prefix, '/')
+		if end < 0 {
+			return candidates
+		}
+		prefix = prefix[:end]
+	}
+}
+
 func (s *LocalStore) SetPolicies(endpoint policy.Endpoint, actions policy.RoutePolicy) {
 	s.mutex.Lock()
 	defer s.mutex.Unlock()
@@ -115,7 +135,11 @@ func (s *LocalStore) SetPolicies(endpoint policy.Endpoint, actions policy.RouteP
 		s.policies[endpoint.Service] = pathtrie.NewPathTrie()
 	}
 
-	if obj, ok := (s.policies[endpoint.Service].GetActions(endpoint.Path)).(policy.Actions); ok {
+	// Only the entry of this very path may change: never the enclosing prefix's
+	obj, ok := (s.policies[endpoint.Service].Get(endpoint.Path)).(policy.Actions)
+	if actions.PolicyReference == "" && len(actions.Actions) == 0 {
+		delete(obj, endpoint.Method) // released: less specific entries apply again
+	} else if ok {
 		obj[endpoint.Method] = actions
 	} else {
 		obj := policy.NewActions()
-- 
2.43.0


From f60a32822b4610627aeb43b349c00466f132a323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:26 +0000
Subject: [PATCH 03/32] fix: updating a policy releases the endpoints its new
 version no longer lists

---
 adapter/policy/handler/crdeventhandler/add_event.go | 8 ++++++++
 adapter/policy/handler/crdeventhandler/utils.go     | 9 +++++++++
 2 files changed, 17 insertions(+)

diff --git a/adapter/policy/handler/crdeventhandler/add_event.go b/adapter/policy/handler/crdeventhandler/add_event.go
index 4498719..bb476ed 100644
--- a/adapter/policy/handler/crdeventhandler/add_event.go
+++ b/adapter/policy/handler/crdeventhandler/add_event.go
@@ -63,7 +63,15 @@ func (e *PolicyAddEventHandler) HandleAddUpdateEvent() {
 		zap.S().Debug("Adding policy for endpoint", policies.Endpoint)
 		e.Store.SetPolicies(policies.Endpoint, policy.RoutePolicy{ PolicyReference: mappingId, Actions: policies.Actions})
 	}
+	previousPolicies := e.Store.GetPolicyMapping(mappingId)
 	e.Store.AddPolicyMapping(mappingId, parsedPolicies)
+	// Release the endpoints of the previous version the policy no longer lists. This comes
+	// last, so that an endpoint listed by both versions is protected throughout the update.
+	for _, previous := range previousPolicies {
+		if !containsEndpoint(parsedPolicies, previous.Endpoint) && e.Store.GetPolicies(previous.Endpoint).PolicyReference == mappingId {
+			e.Store.SetPolicies(previous.Endpoint, policy.NewRoutePolicy())
+		}
+	}
 	zap.L().Info("Policy created/updated", zap.String("ID", string(e.Obj.ObjectMeta.UID)))
 }
 
diff --git a/adapter/policy/handler/crdeventhandler/utils.go b/adapter/policy/handler/crdeventhandler/utils.go
index bba848d..6439060 100644
--- a/adapter/policy/handler/crdeventhandler/utils.go
+++ b/adapter/policy/handler/crdeventhandler/utils.go
@@ -62,6 +62,15 @@ func ParseTarget(target []v1.TargetElement, namespace string) []policy.PolicyMap
 	return targets
 }
 
+func containsEndpoint(mappings []policy.PolicyMapping, endpoint policy.Endpoint) bool {
+	for _, mapping := range mappings {
+		if mapping.Endpoint == endpoint {
+			return true
+		}
+	}
+	return false
+}
+
 func GetKubeSecret(kubeClient kubernetes.Interface, namespace string, ref v1.ClientSecretRef) (*k8sv1.Secret, error) {
 	return kubeClient.CoreV1().Secrets(namespace).Get(ref.Name, metav1.GetOptions{})
 }
\ No newline at end of file
-- 
2.43.0


From 650b2ad1caca01ca68f609677b98189ec3a4b781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:31 +0000
Subject: [PATCH 04/32] fix: deleting a policy hands its endpoints over to the
 other policies listing them

---
 adapter/policy/store/policy/localstore.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/adapter/policy/store/policy/localstore.go b/adapter/policy/store/policy/localstore.go
index c630066..c713ef2 100644
--- a/adapter/policy/store/policy/localstore.go
+++ b/adapter/policy/store/policy/localstore.go
@@ -138,7 +138,11 @@ func (s *LocalStore) SetPolicies(endpoint policy.Endpoint, actions policy.RouteP
 	// Only the entry of this very path may change: never the enclosing prefix's
 	obj, ok := (s.policies[endpoint.Service].Get(endpoint.Path)).(policy.Actions)
 	if actions.PolicyReference == "" && len(actions.Actions) == 0 {
-		delete(obj, endpoint.Method) // released: less specific entries apply again
+		if heir, found := s.otherClaim(endpoint, obj[endpoint.Method].PolicyReference); ok && found {
+			obj[endpoint.Method] = heir // released, but another policy still lists the endpoint
+		} else {
+			delete(obj, endpoint.Method) // released: less specific entries apply again
+		}
 	} else if ok {
 		obj[endpoint.Method] = actions
 	} else {
@@ -148,6 +152,21 @@ func (s *LocalStore) SetPolicies(endpoint policy.Endpoint, actions policy.RouteP
 	}
 }
 
+// otherClaim finds a policy, other than the given one, that lists the endpoint
+func (s *LocalStore) otherClaim(endpoint policy.Endpoint, reference string) (claim policy.RoutePolicy, found bool) {
+	for name, mappings := range s.policyMappings {
+		if name == reference || (found && name > claim.PolicyReference) {
+			continue
+		}
+		for _, mapping := range mappings {
+			if mapping.Endpoint == endpoint {
+				claim, found = policy.RoutePolicy{PolicyReference: name, Actions: mapping.Actions}, true
+			}
+		}
+	}
+	return claim, found
+}
+
 func (s *LocalStore) GetPolicyMapping(policy string) []policy.PolicyMapping {
 	s.mutex.RLock()
 	defer s.mutex.RUnlock()
-- 
2.43.0


From 810ef6d1c247dc85c607a62013a5fa62ecca387c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:25 +0000
Subject: [PATCH 05/32] fix: synchronise the lazily loaded discovery document
 and keys (requests could see them half loaded)

---
 adapter/authserver/authserver.go    | 58 +++++++++++++++++++++--------
 adapter/authserver/keyset/keyset.go | 14 ++++++-
 2 files changed, 55 insertions(+), 17 deletions(-)

diff --git a/adapter/authserver/authserver.go b/adapter/authserver/authserver.go
index 86746f3..4b62e34 100644
--- a/adapter/authserver/authserver.go
+++ b/adapter/authserver/authserver.go
@@ -6,6 +6,7 @@ import (
 	"net/http"
 	"net/url"
 	"strings"
+	"sync"
 
 	"github.com/golang/groupcache/singleflight"
 	"go.uber.org/zap"
@@ -62,6 +63,8 @@ type RemoteService struct {
 	httpclient   *networking.HTTPClient
 	requestGroup singleflight.Group
 	initialized  bool
+	// mutex protects DiscoveryConfig, jwks and initialized
+	mutex sync.RWMutex
 }
 
 // New creates a RemoteService returning a AuthorizationServerService interface
@@ -83,46 +86,67 @@ func New(discoveryEndpoint string) AuthorizationServerService {
 
 // KeySet returns the instance's keyset
 func (s *RemoteService) KeySet() keyset.KeySet {
-	_ = s.initialize()
-	if s.jwks == nil && s.JwksURL != "" {
-		s.jwks = keyset.New(s.JwksURL, s.httpclient)
+	jwksURL := s.config().JwksURL
+	s.mutex.RLock()
+	jwks := s.jwks
+	s.mutex.RUnlock()
+	if jwks != nil || jwksURL == "" {
+		return jwks
+	}
+	created := keyset.New(jwksURL, s.httpclient)
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	if s.jwks == nil {
+		s.jwks = created
 	}
 	return s.jwks
 }
 
 // SetKeySet stores a JWKs in the OAuth server
 func (s *RemoteService) SetKeySet(jwks keyset.KeySet) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	s.jwks = jwks
 }
 
+// config returns the discovery configuration, loading it if necessary
+func (s *RemoteService) config() DiscoveryConfig {
+	_ = s.initialize()
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
+	return s.DiscoveryConfig
+}
+
+// isInitialized tells whether the discovery configuration was loaded
+func (s *RemoteService) isInitialized() bool {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
+	return s.initialized
+}
+
 // JwksEndpoint returns the /publicKeys endpoint of the OAuth server
 func (s *RemoteService) JwksEndpoint() string {
-	_ = s.initialize()
-	return s.JwksURL
+	return s.config().JwksURL
 }
 
 // TokenEndpoint returns the /token endpoint of the OAuth server
 func (s *RemoteService) TokenEndpoint() string {
-	_ = s.initialize()
-	return s.TokenURL
+	return s.config().TokenURL
 }
 
 // AuthorizationEndpoint returns the /authorization endpoint of the OAuth server
 func (s *RemoteService) AuthorizationEndpoint() string {
-	_ = s.initialize()
-	return s.AuthURL
+	return s.config().AuthURL
 }
 
 // UserInfoEndpoint returns the /userinfo endpoint of the OAuth server
 func (s *RemoteService) UserInfoEndpoint() string {
-	_ = s.initialize()
-	return s.UserInfoURL
+	return s.config().UserInfoURL
 }
 
 // GetTokens performs a request to the token endpoint
 func (s *RemoteService) GetTokens(authnMethod string, clientID string, clientSecret string, authorizationCode string, redirectURI string, refreshToken string) (*TokenResponse, error) {
-	_ = s.initialize()
-
+	tokenURL := s.config().TokenURL
 	form := url.Values{}
 
 	if refreshToken != "" {
@@ -140,7 +164,7 @@ func (s *RemoteService) GetTokens(authnMethod string, clientID string, clientSec
 	}
 
 	// Create request
-	req, err := http.NewRequest("POST", s.TokenURL, strings.NewReader(form.Encode()))
+	req, err := http.NewRequest("POST", tokenURL, strings.NewReader(form.Encode()))
 	if err != nil {
 		zap.L().Warn("Could not serialize HTTP request", zap.Error(err))
 		return nil, err
@@ -168,7 +192,7 @@ func (s *RemoteService) GetTokens(authnMethod string, clientID string, clientSec
 
 // initialize attempts to load the Client configuration from the discovery endpoint
 func (s *RemoteService) initialize() error {
-	if s.initialized {
+	if s.isInitialized() {
 		return nil
 	}
 
@@ -177,7 +201,7 @@ func (s *RemoteService) initialize() error {
 	// taking place at once. All threads coming into this call will wait for
 	// a single response, which can then be processed
 	_, err := s.requestGroup.Do(s.discoveryURL, func() (interface{}, error) {
-		if s.initialized {
+		if s.isInitialized() {
 			return http.StatusOK, nil
 		}
 		return s.loadDiscoveryEndpoint()
@@ -210,8 +234,10 @@ func (s *RemoteService) loadDiscoveryEndpoint() (interface{}, error) {
 		return nil, oa2Err
 	}
 
+	s.mutex.Lock()
 	s.initialized = true
 	s.DiscoveryConfig = *config
+	s.mutex.Unlock()
 
 	return http.StatusOK, nil
 }
diff --git a/adapter/authserver/keyset/keyset.go b/adapter/authserver/keyset/keyset.go
index fd64a25..2da32e8 100644
--- a/adapter/authserver/keyset/keyset.go
+++ b/adapter/authserver/keyset/keyset.go
@@ -5,6 +5,7 @@ import (
 	"crypto"
 	"fmt"
 	"net/http"
+	"sync"
 
 	"go.uber.org/zap"
 
@@ -27,6 +28,8 @@ type RemoteKeySet struct {
 
 	requestGroup singleflight.Group
 	publicKeys   map[string]crypto.PublicKey
+	// mutex protects publicKeys
+	mutex sync.RWMutex
 }
 
 ////////////////// constructor //////////////////////////
@@ -55,10 +58,17 @@ func New(publicKeyURL string, httpClient *networking.HTTPClient) KeySet {
 
 // PublicKey returns the public key with the specified kid
 func (s *RemoteKeySet) PublicKey(kid string) crypto.PublicKey {
-	if key := s.publicKeys[kid]; key != nil {
+	if key := s.cachedKey(kid); key != nil {
 		return key
 	}
 	_ = s.updateKeysGrouped()
+	return s.cachedKey(kid)
+}
+
+// cachedKey returns the key with the specified kid among those last retrieved
+func (s *RemoteKeySet) cachedKey(kid string) crypto.PublicKey {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
 	return s.publicKeys[kid]
 }
 
@@ -116,7 +126,9 @@ func (s *RemoteKeySet) updateKeys() (interface{}, error) {
 
 	zap.L().Info("Synced public keys", zap.String("url", s.publicKeyURL))
 
+	s.mutex.Lock()
 	s.publicKeys = keymap
+	s.mutex.Unlock()
 
 	return http.StatusOK, nil
 }
-- 
2.43.0


From 6ba2e87e89db99a6ff6ae5d64b1c71e826e2e74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:53 +0000
Subject: [PATCH 06/32] fix: an expired access token is reported as expired, so
 that the session is refreshed

---
 adapter/validator/validator.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/adapter/validator/validator.go b/adapter/validator/validator.go
index 37a86a8..d4a3927 100644
--- a/adapter/validator/validator.go
+++ b/adapter/validator/validator.go
@@ -90,7 +90,8 @@ func (o *OidcTokenValidator) Validate(tokenStr string, tokenType Token, jwks key
 	// Parse the token - validate expiration and signature
 	token, err := validateSignature(tokenStr, jwks)
 	if err != nil {
-		if tokenType != Access {
+		// An expired access token has to be reported as such: it can be refreshed
+		if tokenType != Access || err.Error() == errors.ExpiredToken {
 			zap.L().Debug("Unauthorized - invalid token", zap.String("token", tokenStr), zap.Error(err))
 			return errors.UnauthorizedHTTPException(err.Error(), findRequiredScopes(rules))
 		}
-- 
2.43.0


From 9eabd6f4c37b2045338a5a878a064425c657ce30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:25 +0000
Subject: [PATCH 07/32] fix: bound the userinfo request by the default timeout
 and close its response

---
 adapter/validator/validator.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/adapter/validator/validator.go b/adapter/validator/validator.go
index d4a3927..e75a3d2 100644
--- a/adapter/validator/validator.go
+++ b/adapter/validator/validator.go
@@ -12,6 +12,7 @@ import (
 
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver/keyset"
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/errors"
+	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/networking"
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
 )
@@ -148,7 +149,7 @@ func (*JwtTokenValidator) Validate(tokenStr string, tokenType Token, jwks keyset
 
 // validateAccessTokenString validates the access token string
 func validateAccessTokenString(userInfoEndpoint string, tokenStr string, rules []v1.Rule) *errors.OAuthError {
-	client := &http.Client{}
+	client := networking.New().Client // bounded by the default timeout
 	req, err := http.NewRequest("GET", userInfoEndpoint, nil)
 
 	if err != nil {
@@ -163,6 +164,8 @@ func validateAccessTokenString(userInfoEndpoint string, tokenStr string, rules [
 		return errors.UnauthorizedHTTPException(err.Error(), findRequiredScopes(rules))
 	}
 
+	defer res.Body.Close()
+
 	if res.StatusCode != http.StatusOK {
 		zap.L().Warn("Unauthorized - invalid token", zap.String("token", tokenStr), zap.Int("res.StatusCode", res.StatusCode))
 		return errors.UnauthorizedHTTPException("Unauthorized - invalid token", findRequiredScopes(rules))
-- 
2.43.0


From 6e4f15fa1fba0f3553a2548c4c7702368ffe6a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:27 +0000
Subject: [PATCH 08/32] fix: an OIDC config created while its provider is down
 picks up the keys once it is back

---
 adapter/policy/handler/crdeventhandler/add_event.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/adapter/policy/handler/crdeventhandler/add_event.go b/adapter/policy/handler/crdeventhandler/add_event.go
index bb476ed..75b3152 100644
--- a/adapter/policy/handler/crdeventhandler/add_event.go
+++ b/adapter/policy/handler/crdeventhandler/add_event.go
@@ -46,8 +46,11 @@ func (e *OidcConfigAddEventHandler) HandleAddUpdateEvent() {
 		e.Obj.Spec.AuthMethod = "client_secret_basic"
 	}
 	authorizationServer := authserver.New(e.Obj.Spec.DiscoveryURL)
-	keySets := keyset.New(authorizationServer.JwksEndpoint(), nil)
-	authorizationServer.SetKeySet(keySets)
+	// While the discovery endpoint is unavailable the keys' URL is unknown: the
+	// authorization server will set its keys up once it could be discovered
+	if jwksURL := authorizationServer.JwksEndpoint(); jwksURL != "" {
+		authorizationServer.SetKeySet(keyset.New(jwksURL, nil))
+	}
 	e.Obj.Spec.ClientSecret = GetClientSecret(e.Obj, e.KubeClient)
 	// Create and store OIDC Client
 	oidcClient := client.New(e.Obj.Spec, authorizationServer)
-- 
2.43.0


From c263c60fc9b9b8178de648fde9e05411617b4c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:31 +0000
Subject: [PATCH 09/32] fix: the controller must not take a failed read for a
 deletion

---
 adapter/policy/controller/controller.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/adapter/policy/controller/controller.go b/adapter/policy/controller/controller.go
index 18f76d8..f85c0a3 100644
--- a/adapter/policy/controller/controller.go
+++ b/adapter/policy/controller/controller.go
@@ -104,6 +104,7 @@ func (c *Controller) processNextItem() bool {
 			c.Queue.Forget(key)
 			utilruntime.HandleError(err)
 		}
+		return true // a failed read must not be taken for a deletion
 	}
 
 	// if the item doesn't exist then it was deleted and we need to fire off the handler's
-- 
2.43.0


From b1985d6e8661264872a6a7fdcf7ae61fba50e756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:33 +0000
Subject: [PATCH 10/32] fix: draw session and state identifiers from
 crypto/rand (the shared source was racy and predictable)

---
 adapter/strategy/web/utils.go | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/adapter/strategy/web/utils.go b/adapter/strategy/web/utils.go
index d8a0842..e8d122f 100644
--- a/adapter/strategy/web/utils.go
+++ b/adapter/strategy/web/utils.go
@@ -1,12 +1,12 @@
 package webstrategy
 
 import (
+	"crypto/rand"
 	"errors"
-	"math/rand"
+	"math/big"
 	"net/http"
 	"net/url"
 	"time"
-	"unsafe"
 
 	"go.uber.org/zap"
 
@@ -14,32 +14,20 @@ import (
 	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
 )
 
-const (
-	letterBytes   = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
-	letterIdxBits = 6                    // 6 bits to represent a letter index
-	letterIdxMask = 1<<letterIdxBits - 1 // All 1-bits, as many as letterIdxBits
-	letterIdxMax  = 63 / letterIdxBits   // # of letter indices fitting in 63 bits
-)
-
-var src = rand.NewSource(time.Now().UnixNano())
+const letterBytes = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
 
 // randString generates a random string of the given size
 func randString(n int) string {
 	b := make([]byte, n)
-	// A src.Int63() generates 63 random bits, enough for letterIdxMax characters!
-	for i, cache, remain := n-1, src.Int63(), letterIdxMax; i >= 0; {
-		if remain == 0 {
-			cache, remain = src.Int63(), letterIdxMax
+	for i := range b {
+		// crypto/rand is safe for concurrent use and cannot be predicted
+		idx, err := rand.Int(rand.Reader, big.NewInt(int64(len(letterBytes))))
+		if err != nil {
+			panic(err)
 		}
-		if idx := int(cache & letterIdxMask); idx < len(letterBytes) {
-			b[i] = letterBytes[idx]
-			i--
-		}
-		cache >>= letterIdxBits
-		remain--
+		b[i] = letterBytes[idx.Int64()]
 	}
-
-	return *(*string)(unsafe.Pointer(&b))
+	return string(b)
 }
 
 // generateAuthorizationURL builds the /authorization request that begins an OAuth 2.0 / OIDC flow
-- 
2.43.0


From ab7da1ef69bc8feffd6940a0c9f7c579e8bf63ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:12 +0000
Subject: [PATCH 11/32] fix: a refresh in progress must not bring a session
 back after its logout

---
 adapter/strategy/web/web.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index 81e95cf..ac29bba 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -61,6 +61,9 @@ type WebStrategy struct {
 	mutex      *sync.Mutex
 	encrpytor  Encryptor
 	tokenCache *sync.Map
+
+	// logoutMutex keeps a refresh in progress from bringing a session back after its logout
+	logoutMutex sync.Mutex
 }
 
 // Encryptor signs and encrypts values. Used for cookie encryption
@@ -210,7 +213,16 @@ func (w *WebStrategy) handleRefreshTokens(sessionID string, session *authserver.
 	} else {
 		zap.L().Debug("Updated tokens using refresh token", zap.String("client_name", c.Name()), zap.String("session_id", sessionID))
 		cookie := generateSessionIDCookie(c, &sessionID)
-		w.tokenCache.Store(cookie.Value, tokens)
+		w.logoutMutex.Lock()
+		_, active := w.tokenCache.Load(sessionID)
+		if active {
+			w.tokenCache.Store(sessionID, tokens)
+		}
+		w.logoutMutex.Unlock()
+		if !active {
+			zap.L().Debug("Session ended while its tokens were refreshed", zap.String("client_name", c.Name()), zap.String("session_id", sessionID))
+			return nil, nil
+		}
 		return &authnz.HandleAuthnZResponse{
 			Result: &v1beta1.CheckResult{Status: status.WithMessage(rpc.OK, "User is authenticated")},
 			Output: &authnz.OutputMsg{
@@ -244,7 +256,9 @@ func (w *WebStrategy) handleLogout(r *authnz.HandleAuthnZRequest, action *engine
 
 	if cookie, err := request.Cookie(cookieName); err == nil {
 		zap.L().Debug("Deleting active session", zap.String("client_name", action.Client.Name()), zap.String("session_id", cookie.Value))
+		w.logoutMutex.Lock()
 		w.tokenCache.Delete(cookie.Value)
+		w.logoutMutex.Unlock()
 	}
 
 	redirectURL := strings.Split(r.Instance.Request.Path, logoutEndpoint)[0]
-- 
2.43.0


From 71bee5361385c70985f052df4a35cf5a20a155ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:15 +0000
Subject: [PATCH 12/32] fix: keep the refresh token when the refresh response
 carries no new one

---
 adapter/strategy/web/web.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index ac29bba..fdeae33 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -212,6 +212,9 @@ func (w *WebStrategy) handleRefreshTokens(sessionID string, session *authserver.
 		return nil, nil
 	} else {
 		zap.L().Debug("Updated tokens using refresh token", zap.String("client_name", c.Name()), zap.String("session_id", sessionID))
+		if tokens.RefreshToken == "" {
+			tokens.RefreshToken = session.RefreshToken // not replaced: https://tools.ietf.org/html/rfc6749#section-6
+		}
 		cookie := generateSessionIDCookie(c, &sessionID)
 		w.logoutMutex.Lock()
 		_, active := w.tokenCache.Load(sessionID)
-- 
2.43.0


From ac05d1fc63756aa87bbb36845887757393ae5860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:17 +0000
Subject: [PATCH 13/32] fix: logout redirects within the host, to / when
 logging out at the root

---
 adapter/strategy/web/web.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index fdeae33..cc3be6d 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -264,7 +264,8 @@ func (w *WebStrategy) handleLogout(r *authnz.HandleAuthnZRequest, action *engine
 		w.logoutMutex.Unlock()
 	}
 
-	redirectURL := strings.Split(r.Instance.Request.Path, logoutEndpoint)[0]
+	// Always redirect within the host: neither to nowhere nor, for "//name/oidc/logout", to another host
+	redirectURL := "/" + strings.TrimLeft(strings.Split(r.Instance.Request.Path, logoutEndpoint)[0], "/\\")
 	cookies := []*http.Cookie{
 		{
 			Name:    cookieName,
-- 
2.43.0


From e2c34ab96df6f157be060983dd687fb9a71fa875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:18 +0000
Subject: [PATCH 14/32] fix: the root's own policy covers its callback, logout
 and empty path

---
 adapter/policy/engine/engine.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/adapter/policy/engine/engine.go b/adapter/policy/engine/engine.go
index 94931dd..83b1c42 100644
--- a/adapter/policy/engine/engine.go
+++ b/adapter/policy/engine/engine.go
@@ -58,6 +58,10 @@ func (m *engine) Evaluate(target *authnz.TargetMsg) (*Action, error) {
 		target.Path = strings.Split(target.Path, logoutEndpoint)[0]
 	}
 
+	if target.Path == "" {
+		target.Path = "/"
+	}
+
 	// Get All policies protecting target
 	policies, err := m.getPolicies(endpointsToCheck(target))
 	if err != nil {
-- 
2.43.0


From 13080125bfe6ee2d5d6e49bfd87caec8576aaaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:24 +0000
Subject: [PATCH 15/32] fix: synchronise the lazily created cookie encryptor

---
 adapter/strategy/web/web.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index cc3be6d..dc94bb4 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -64,6 +64,8 @@ type WebStrategy struct {
 
 	// logoutMutex keeps a refresh in progress from bringing a session back after its logout
 	logoutMutex sync.Mutex
+	// encryptorMutex protects encrpytor, which requests read while it may still be set up
+	encryptorMutex sync.RWMutex
 }
 
 // Encryptor signs and encrypts values. Used for cookie encryption
@@ -371,8 +373,11 @@ func (w *WebStrategy) handleAuthorizationCodeFlow(request *authnz.RequestMsg, ac
 // thread safe manner.
 func (w *WebStrategy) getSecureCookie() (Encryptor, error) {
 	// Allow all threads to check if instance already exists
-	if w.encrpytor != nil {
-		return w.encrpytor, nil
+	w.encryptorMutex.RLock()
+	sc := w.encrpytor
+	w.encryptorMutex.RUnlock()
+	if sc != nil {
+		return sc, nil
 	}
 	w.mutex.Lock()
 	// Once this thread has the lock check again to see if it had been set while waiting
@@ -406,8 +411,11 @@ func (w *WebStrategy) generateSecureCookie() (Encryptor, error) {
 
 	if s, ok := secret.(*v1.Secret); ok {
 		zap.S().Infof("Synced secret: %v", defaultKeySecret)
-		w.encrpytor = securecookie.New(s.Data[hashKey], s.Data[blockKey])
-		return w.encrpytor, nil
+		sc := securecookie.New(s.Data[hashKey], s.Data[blockKey])
+		w.encryptorMutex.Lock()
+		w.encrpytor = sc
+		w.encryptorMutex.Unlock()
+		return sc, nil
 	} else {
 		zap.S().Error("Could not convert interface to secret")
 		return nil, errors.New("could not sync signing / encryption secrets")
-- 
2.43.0


From 0c37951611723f19d8a01b3f15415861b5d2e036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:55 +0000
Subject: [PATCH 16/32] fix: do not redirect a login to nowhere while the
 identity provider is unavailable

---
 adapter/strategy/web/web.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index dc94bb4..73b9a19 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -344,6 +344,11 @@ func (w *WebStrategy) handleAuthorizationCodeCallback(code interface{}, request
 
 // handleAuthorizationCodeFlow initiates an OAuth 2.0 / OIDC authorization_code grant flow.
 func (w *WebStrategy) handleAuthorizationCodeFlow(request *authnz.RequestMsg, action *engine.Action) (*authnz.HandleAuthnZResponse, error) {
+	// Without its discovery document the provider's location is unknown
+	if server := action.Client.AuthorizationServer(); server == nil || server.AuthorizationEndpoint() == "" {
+		zap.L().Info("Identity provider is unavailable", zap.String("client_name", action.Client.Name()))
+		return nil, errors.New("identity provider is unavailable")
+	}
 	redirectURI := buildRequestURL(request) + callbackEndpoint
 	// / Build and store session state
 	state, stateCookie, err := w.buildStateParam(action.Client)
-- 
2.43.0


From 99e473ccf0bcec71e62ffa19e76db537ec8426e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:17 +0000
Subject: [PATCH 17/32] fix: compare numeric claims by their exact value (1.5
 satisfied a rule asking for 2)

---
 adapter/validator/validator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/adapter/validator/validator.go b/adapter/validator/validator.go
index e75a3d2..087596c 100644
--- a/adapter/validator/validator.go
+++ b/adapter/validator/validator.go
@@ -321,7 +321,7 @@ func convertClaimType(value interface{}) (map[string]struct{}, error) {
 		m[strconv.FormatBool(t)] = struct{}{}
 		return m, nil
 	case float64:
-		m[strconv.FormatFloat(t, 'f', 0, 64)] = struct{}{}
+		m[strconv.FormatFloat(t, 'f', -1, 64)] = struct{}{}
 		return m, nil
 	case string:
 		for _, v := range strings.Split(t, " ") {
@@ -334,7 +334,7 @@ func convertClaimType(value interface{}) (map[string]struct{}, error) {
 			case string:
 				m[s2] = struct{}{}
 			case float64:
-				m[strconv.FormatFloat(s2, 'f', 0, 64)] = struct{}{}
+				m[strconv.FormatFloat(s2, 'f', -1, 64)] = struct{}{}
 			case bool:
 				m[strconv.FormatBool(s2)] = struct{}{}
 			default:
-- 
2.43.0


From e4974ffd99905db372da9be824c714a5a0ff48ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:12 +0000
Subject: [PATCH 18/32] fix: a genuine token that is expired and not yet valid
 either is expired, userinfo must not vouch for it

---
 adapter/validator/validator.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/adapter/validator/validator.go b/adapter/validator/validator.go
index 087596c..e825c64 100644
--- a/adapter/validator/validator.go
+++ b/adapter/validator/validator.go
@@ -214,7 +214,12 @@ func validateSignature(token string, jwks keyset.KeySet) (*jwt.Token, error) {
 		return key, nil
 	}
 
-	return jwt.Parse(token, getKey)
+	parsed, err := jwt.Parse(token, getKey)
+	if vErr, ok := err.(*jwt.ValidationError); ok && vErr.Errors&jwt.ValidationErrorExpired != 0 {
+		// Expired, whatever else is wrong with its validity period
+		return parsed, &errors.OAuthError{Msg: errors.ExpiredToken}
+	}
+	return parsed, err
 }
 
 // validateClaims validates claims based on policies
-- 
2.43.0


From c7897ec62a33c1723dab1a495f076cfea5690f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:29 +0000
Subject: [PATCH 19/32] fix: only the final /oidc/callback or /oidc/logout of a
 path is the endpoint

A path that contains one of them elsewhere was cut there: other policies
decided it, and logins and logouts returned to another page.
---
 adapter/policy/engine/engine.go | 4 ++--
 adapter/strategy/web/web.go     | 9 +++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/adapter/policy/engine/engine.go b/adapter/policy/engine/engine.go
index 83b1c42..c1db2f6 100644
--- a/adapter/policy/engine/engine.go
+++ b/adapter/policy/engine/engine.go
@@ -53,9 +53,9 @@ func (m *engine) Evaluate(target *authnz.TargetMsg) (*Action, error) {
 
 	// Strip custom path components
 	if strings.HasSuffix(target.Path, callbackEndpoint) {
-		target.Path = strings.Split(target.Path, callbackEndpoint)[0]
+		target.Path = strings.TrimSuffix(target.Path, callbackEndpoint)
 	} else if strings.HasSuffix(target.Path, logoutEndpoint) {
-		target.Path = strings.Split(target.Path, logoutEndpoint)[0]
+		target.Path = strings.TrimSuffix(target.Path, logoutEndpoint)
 	}
 
 	if target.Path == "" {
diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index 73b9a19..69bac48 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -267,7 +267,7 @@ func (w *WebStrategy) handleLogout(r *authnz.HandleAuthnZRequest, action *engine
 	}
 
 	// Always redirect within the host: neither to nowhere nor, for "//name/oidc/logout", to another host
-	redirectURL := "/" + strings.TrimLeft(strings.Split(r.Instance.Request.Path, logoutEndpoint)[0], "/\\")
+	redirectURL := "/" + strings.TrimLeft(strings.TrimSuffix(r.Instance.Request.Path, logoutEndpoint), "/\\")
 	cookies := []*http.Cookie{
 		{
 			Name:    cookieName,
@@ -335,11 +335,12 @@ func (w *WebStrategy) handleAuthorizationCodeCallback(code interface{}, request
 
 	zap.L().Debug("OIDC callback: created new active session: ", zap.String("client_name", action.Client.Name()), zap.String("session_id", cookie.Value))
 
+	originalURL := strings.TrimSuffix(redirectURI, callbackEndpoint)
 	if action.RedirectUri != "" {
-		redirectURI = action.RedirectUri
+		originalURL = action.RedirectUri
 	}
 
-	return buildSuccessRedirectResponse(redirectURI, []*http.Cookie{cookie}), nil
+	return buildSuccessRedirectResponse(originalURL, []*http.Cookie{cookie}), nil
 }
 
 // handleAuthorizationCodeFlow initiates an OAuth 2.0 / OIDC authorization_code grant flow.
@@ -515,7 +516,7 @@ func (w *WebStrategy) parseAndValidateCookie(cookie *http.Cookie) *OidcCookie {
 // to the provided url with the accompanying cookie headers
 func buildSuccessRedirectResponse(redirectURI string, cookies []*http.Cookie) *authnz.HandleAuthnZResponse {
 	headers := make(map[string]string)
-	headers[location] = strings.Split(redirectURI, callbackEndpoint)[0]
+	headers[location] = redirectURI
 	for _, cookie := range cookies {
 		headers[setCookie] = cookie.String()
 		zap.S().Debugf("Appending cookie to response: %s", cookie.String())
-- 
2.43.0


From fac76cbf1b415ce2d3ac87def2f1f89df8451c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:08 +0000
Subject: [PATCH 20/32] fix: a client id with characters cookie names cannot
 contain left logins without a cookie

---
 adapter/strategy/web/utils.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/adapter/strategy/web/utils.go b/adapter/strategy/web/utils.go
index e8d122f..2e09cc4 100644
--- a/adapter/strategy/web/utils.go
+++ b/adapter/strategy/web/utils.go
@@ -63,9 +63,10 @@ func buildRequestURL(action *authnz.RequestMsg) string {
 	return action.Scheme + "://" + action.Host + action.Path
 }
 
-// buildTokenCookieName constructs the cookie name
+// buildTokenCookieName constructs the cookie name. Characters of the client's id which
+// a cookie name cannot contain are escaped: such a cookie would not be set at all.
 func buildTokenCookieName(base string, c client.Client) string {
-	return base + "-" + c.ID()
+	return base + "-" + url.QueryEscape(c.ID())
 }
 
 // generateSessionIDCookie creates a new sessionId cookie
-- 
2.43.0


From 5ddc9300f5e9bc4068644384fe833194ae02ff93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:15 +0000
Subject: [PATCH 21/32] fix: retain the query of the provider's authorization
 endpoint

---
 adapter/strategy/web/utils.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/adapter/strategy/web/utils.go b/adapter/strategy/web/utils.go
index 2e09cc4..a74dc6d 100644
--- a/adapter/strategy/web/utils.go
+++ b/adapter/strategy/web/utils.go
@@ -43,14 +43,14 @@ func generateAuthorizationURL(c client.Client, redirectURI string, state string)
 		return ""
 	}
 
-	// Prepare Query Parameters
-	params := url.Values{
-		"client_id":     {c.ID()},
-		"response_type": {"code"},
-		"redirect_uri":  {redirectURI},
-		"scope":         {c.Scope()},
-		"state":         {state},
-	}
+	// Prepare Query Parameters, retaining those of the endpoint itself:
+	// https://tools.ietf.org/html/rfc6749#section-3.1
+	params := baseUrl.Query()
+	params.Set("client_id", c.ID())
+	params.Set("response_type", "code")
+	params.Set("redirect_uri", redirectURI)
+	params.Set("scope", c.Scope())
+	params.Set("state", state)
 
 	// Add Query Parameters to the URL
 	baseUrl.RawQuery = params.Encode() // Escape Query Parameters
-- 
2.43.0


From 95b12e1d4c3f3982b4fe06e14ee84782423752d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:11 +0000
Subject: [PATCH 22/32] fix: replace a policy's version in one step (requests
 were decided by a mixture of both)

---
 .../handler/crdeventhandler/add_event.go      | 16 +--------
 .../handler/crdeventhandler/delete_event.go   | 11 +-----
 .../policy/handler/crdeventhandler/utils.go   |  9 -----
 adapter/policy/store/policy/localstore.go     | 35 +++++++++++++++++++
 adapter/policy/store/policy/policystore.go    |  2 ++
 5 files changed, 39 insertions(+), 34 deletions(-)

diff --git a/adapter/policy/handler/crdeventhandler/add_event.go b/adapter/policy/handler/crdeventhandler/add_event.go
index 75b3152..f0fc886 100644
--- a/adapter/policy/handler/crdeventhandler/add_event.go
+++ b/adapter/policy/handler/crdeventhandler/add_event.go
@@ -8,7 +8,6 @@ import (
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver/keyset"
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/client"
 	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
-	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
 	storepolicy "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/store/policy"
 )
 
@@ -61,20 +60,7 @@ func (e *OidcConfigAddEventHandler) HandleAddUpdateEvent() {
 func (e *PolicyAddEventHandler) HandleAddUpdateEvent() {
 	zap.L().Debug("Create/Update Policy", zap.String("ID", string(e.Obj.ObjectMeta.UID)), zap.String("name", e.Obj.ObjectMeta.Name), zap.String("namespace", e.Obj.ObjectMeta.Namespace))
 	mappingId := e.Obj.ObjectMeta.Namespace + "/" +e.Obj.ObjectMeta.Name
-	parsedPolicies := ParseTarget(e.Obj.Spec.Target, e.Obj.ObjectMeta.Namespace)
-	for _, policies := range parsedPolicies {
-		zap.S().Debug("Adding policy for endpoint", policies.Endpoint)
-		e.Store.SetPolicies(policies.Endpoint, policy.RoutePolicy{ PolicyReference: mappingId, Actions: policies.Actions})
-	}
-	previousPolicies := e.Store.GetPolicyMapping(mappingId)
-	e.Store.AddPolicyMapping(mappingId, parsedPolicies)
-	// Release the endpoints of the previous version the policy no longer lists. This comes
-	// last, so that an endpoint listed by both versions is protected throughout the update.
-	for _, previous := range previousPolicies {
-		if !containsEndpoint(parsedPolicies, previous.Endpoint) && e.Store.GetPolicies(previous.Endpoint).PolicyReference == mappingId {
-			e.Store.SetPolicies(previous.Endpoint, policy.NewRoutePolicy())
-		}
-	}
+	e.Store.ReplacePolicies(mappingId, ParseTarget(e.Obj.Spec.Target, e.Obj.ObjectMeta.Namespace))
 	zap.L().Info("Policy created/updated", zap.String("ID", string(e.Obj.ObjectMeta.UID)))
 }
 
diff --git a/adapter/policy/handler/crdeventhandler/delete_event.go b/adapter/policy/handler/crdeventhandler/delete_event.go
index 61ed5a4..8af755b 100644
--- a/adapter/policy/handler/crdeventhandler/delete_event.go
+++ b/adapter/policy/handler/crdeventhandler/delete_event.go
@@ -36,16 +36,7 @@ func (e *OidcConfigDeleteEventHandler) HandleDeleteEvent() {
 }
 
 func (e *PolicyDeleteEventHandler) HandleDeleteEvent() {
-	parsedPolicies := e.Store.GetPolicyMapping(e.Key)
-	for _, policies := range parsedPolicies {
-		zap.S().Debug("Getting policy for endpoint", policies.Endpoint)
-		storedPolicy := e.Store.GetPolicies(policies.Endpoint)
-		if storedPolicy.PolicyReference == e.Key {
-			e.Store.SetPolicies(policies.Endpoint, policy.NewRoutePolicy())
-		}
-	}
-	// remove entry from policyMapping
-	e.Store.DeletePolicyMapping(e.Key)
+	e.Store.ReplacePolicies(e.Key, nil)
 	zap.S().Debug("Delete policy completed")
 }
 
diff --git a/adapter/policy/handler/crdeventhandler/utils.go b/adapter/policy/handler/crdeventhandler/utils.go
index 6439060..bba848d 100644
--- a/adapter/policy/handler/crdeventhandler/utils.go
+++ b/adapter/policy/handler/crdeventhandler/utils.go
@@ -62,15 +62,6 @@ func ParseTarget(target []v1.TargetElement, namespace string) []policy.PolicyMap
 	return targets
 }
 
-func containsEndpoint(mappings []policy.PolicyMapping, endpoint policy.Endpoint) bool {
-	for _, mapping := range mappings {
-		if mapping.Endpoint == endpoint {
-			return true
-		}
-	}
-	return false
-}
-
 func GetKubeSecret(kubeClient kubernetes.Interface, namespace string, ref v1.ClientSecretRef) (*k8sv1.Secret, error) {
 	return kubeClient.CoreV1().Secrets(namespace).Get(ref.Name, metav1.GetOptions{})
 }
\ No newline at end of file
diff --git a/adapter/policy/store/policy/localstore.go b/adapter/policy/store/policy/localstore.go
index c713ef2..5a9a0a2 100644
--- a/adapter/policy/store/policy/localstore.go
+++ b/adapter/policy/store/policy/localstore.go
@@ -90,6 +90,11 @@ func (l *LocalStore) DeleteClient(clientName string) {
 func (l *LocalStore) GetPolicies(endpoint policy.Endpoint) policy.RoutePolicy {
 	l.mutex.RLock()
 	defer l.mutex.RUnlock()
+	return l.getPolicies(endpoint)
+}
+
+// getPolicies requires the mutex to be held
+func (l *LocalStore) getPolicies(endpoint policy.Endpoint) policy.RoutePolicy {
 	if l.policies != nil && l.policies[endpoint.Service] != nil {
 		// Most specific path first. A path that is silent about the method
 		// must not hide a less specific prefix that does protect it.
@@ -128,6 +133,11 @@ func pathCandidates(path string) []string {
 func (s *LocalStore) SetPolicies(endpoint policy.Endpoint, actions policy.RoutePolicy) {
 	s.mutex.Lock()
 	defer s.mutex.Unlock()
+	s.setPolicies(endpoint, actions)
+}
+
+// setPolicies requires the mutex to be held
+func (s *LocalStore) setPolicies(endpoint policy.Endpoint, actions policy.RoutePolicy) {
 	if s.policies == nil {
 		s.policies = make(map[policy.Service]pathtrie.Trie)
 	}
@@ -192,3 +202,28 @@ func (s *LocalStore) AddPolicyMapping(name string, mapping []policy.PolicyMappin
 	}
 	s.policyMappings[name] = mapping
 }
+
+// ReplacePolicies replaces the version a policy has so far by the given endpoints, in
+// one step: no request is decided by a mixture of both versions
+func (s *LocalStore) ReplacePolicies(name string, mapping []policy.PolicyMapping) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	listed := make(map[policy.Endpoint]bool)
+	for _, m := range mapping {
+		listed[m.Endpoint] = true
+		s.setPolicies(m.Endpoint, policy.RoutePolicy{PolicyReference: name, Actions: m.Actions})
+	}
+	for _, previous := range s.policyMappings[name] {
+		if !listed[previous.Endpoint] && s.getPolicies(previous.Endpoint).PolicyReference == name {
+			s.setPolicies(previous.Endpoint, policy.NewRoutePolicy())
+		}
+	}
+	if s.policyMappings == nil {
+		s.policyMappings = make(map[string][]policy.PolicyMapping)
+	}
+	if mapping == nil {
+		delete(s.policyMappings, name)
+	} else {
+		s.policyMappings[name] = mapping
+	}
+}
diff --git a/adapter/policy/store/policy/policystore.go b/adapter/policy/store/policy/policystore.go
index 228ce57..85c5c0c 100644
--- a/adapter/policy/store/policy/policystore.go
+++ b/adapter/policy/store/policy/policystore.go
@@ -16,6 +16,8 @@ type PolicyStore interface {
 	DeleteClient(clientName string)
 	GetPolicies(endpoint policy.Endpoint) policy.RoutePolicy
 	SetPolicies(endpoint policy.Endpoint, actions policy.RoutePolicy)
+	// ReplacePolicies replaces all endpoints of a policy at once (nil: deletes the policy)
+	ReplacePolicies(policy string, mapping []policy.PolicyMapping)
 	// DeletePolicies(ep policy.Endpoint, obj interface{})
 	GetPolicyMapping(policy string) []policy.PolicyMapping
 	AddPolicyMapping(policy string, mapping []policy.PolicyMapping)
-- 
2.43.0


From a4c7304e437fd5ee772e09f00dcbdf5d4a54fbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:06 +0000
Subject: [PATCH 23/32] fix: cookie keys that cannot be used are read again, so
 that logins resume once the secret was put right

---
 adapter/strategy/web/web.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index 69bac48..46b28d9 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -397,6 +397,18 @@ func (w *WebStrategy) getSecureCookie() (Encryptor, error) {
 	return sc, err
 }
 
+// forgetSecureCookie has the key set read again: its secret may hold keys which cannot
+// be used, and be put right later.
+func (w *WebStrategy) forgetSecureCookie(sc Encryptor) {
+	w.mutex.Lock()
+	defer w.mutex.Unlock()
+	w.encryptorMutex.Lock()
+	defer w.encryptorMutex.Unlock()
+	if w.encrpytor == sc {
+		w.encrpytor = nil
+	}
+}
+
 // generateSecureCookie instantiates a SecureCookie instance using either the preconfigured
 // key secret cookie or a dynamically generated pair.
 func (w *WebStrategy) generateSecureCookie() (Encryptor, error) {
@@ -475,6 +487,7 @@ func (w *WebStrategy) generateEncryptedCookie(cookieName string, cookieData *Oid
 		}, nil
 	} else {
 		zap.S().Error("Error encoding cookie: length: %s", len(encoded))
+		w.forgetSecureCookie(sc)
 		return nil, err
 	}
 }
-- 
2.43.0


From 034c3118d68bb6ed373bbd5344835fd1e17fb1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:53 +0000
Subject: [PATCH 24/32] fix: serve requests only once the existing policies are
 known

The adapter began to serve before it had listed the policies, so that after
every (re)start requests to protected paths were let through.
---
 adapter/policy/controller/controller.go         |  9 +++++++++
 adapter/policy/initializer/policyinitializer.go | 13 +++++++++----
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/adapter/policy/controller/controller.go b/adapter/policy/controller/controller.go
index f85c0a3..843a6b9 100644
--- a/adapter/policy/controller/controller.go
+++ b/adapter/policy/controller/controller.go
@@ -26,6 +26,8 @@ type Controller struct {
 	Queue     workqueue.RateLimitingInterface
 	Informer  cache.SharedIndexInformer
 	Handler   handler.PolicyHandler
+	// Ready, if set, is closed once the resources that exist at the start were handled
+	Ready chan struct{}
 }
 
 // Run is the main path of execution for the controller loop
@@ -48,6 +50,13 @@ func (c *Controller) Run(stopCh <-chan struct{}) {
 	}
 	zap.L().Debug("Controller.Run: cache sync complete")
 
+	if c.Ready != nil {
+		for _, item := range c.Informer.GetIndexer().List() {
+			c.Handler.HandleAddUpdateEvent(item)
+		}
+		close(c.Ready)
+	}
+
 	// run the runWorker method every second with a stop channel
 	wait.Until(c.runWorker, time.Second, stopCh)
 }
diff --git a/adapter/policy/initializer/policyinitializer.go b/adapter/policy/initializer/policyinitializer.go
index 77c8cfe..52f28b8 100644
--- a/adapter/policy/initializer/policyinitializer.go
+++ b/adapter/policy/initializer/policyinitializer.go
@@ -52,9 +52,13 @@ func New(store policy.PolicyStore) (Initializer, error) {
 	policyInitializer := &PolicyInitializer{Handler: handler, KubeClient: client}
 	informerlist := policiesInformer.NewSharedInformerFactory(myresourceClient, 0)
 
-	go initPolicyController(informerlist.Appid().V1().JwtConfigs().Informer(), client, policyInitializer.Handler, v1.JWTCONFIG)
-	go initPolicyController(informerlist.Appid().V1().OidcConfigs().Informer(), client, policyInitializer.Handler, v1.OIDCCONFIG)
-	go initPolicyController(informerlist.Appid().V1().Policies().Informer(), client, policyInitializer.Handler, v1.POLICY)
+	go initPolicyController(informerlist.Appid().V1().JwtConfigs().Informer(), client, policyInitializer.Handler, v1.JWTCONFIG, nil)
+	go initPolicyController(informerlist.Appid().V1().OidcConfigs().Informer(), client, policyInitializer.Handler, v1.OIDCCONFIG, nil)
+	policiesReady := make(chan struct{})
+	go initPolicyController(informerlist.Appid().V1().Policies().Informer(), client, policyInitializer.Handler, v1.POLICY, policiesReady)
+
+	// requests must not be decided before the policies protecting them are known
+	<-policiesReady
 
 	return policyInitializer, nil
 }
@@ -113,7 +117,7 @@ func getKubernetesClient() (kubernetes.Interface, policiesClientSet.Interface, e
 	return client, policiesClient, nil
 }
 
-func initPolicyController(informer cache.SharedIndexInformer, client kubernetes.Interface, policyHandler handler.PolicyHandler, crdType v1.CrdType) {
+func initPolicyController(informer cache.SharedIndexInformer, client kubernetes.Interface, policyHandler handler.PolicyHandler, crdType v1.CrdType, ready chan struct{}) {
 	// create a new queue so that when the informer gets a resource that is either
 	// a result of listing or watching, we can add an idenfitying key to the queue
 	// so that it can be handled in the handler
@@ -164,6 +168,7 @@ func initPolicyController(informer cache.SharedIndexInformer, client kubernetes.
 		Informer:  informer,
 		Queue:     queue,
 		Handler:   policyHandler,
+		Ready:     ready,
 	}
 
 	stopCh := make(chan struct{})
-- 
2.43.0


From 9a5e59a7e4049c206afaf187e2339adcc476e457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:12 +0000
Subject: [PATCH 25/32] fix: a provider that does not answer held up the
 configurations of others

Adding a configuration waited for its provider's discovery document and
keys, so that configurations added or changed afterwards took effect only
5 to 10 seconds later per provider that does not answer.
---
 adapter/authserver/authserver.go                    | 13 +++++++++++--
 adapter/authserver/keyset/keyset.go                 | 10 ++++++++++
 adapter/policy/handler/crdeventhandler/add_event.go | 10 +++-------
 3 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/adapter/authserver/authserver.go b/adapter/authserver/authserver.go
index 4b62e34..d0ea909 100644
--- a/adapter/authserver/authserver.go
+++ b/adapter/authserver/authserver.go
@@ -84,6 +84,16 @@ func New(discoveryEndpoint string) AuthorizationServerService {
 	return s
 }
 
+// NewAsync creates a RemoteService which loads its configuration and keys in the background
+func NewAsync(discoveryEndpoint string) AuthorizationServerService {
+	s := &RemoteService{
+		httpclient:   networking.New(),
+		discoveryURL: discoveryEndpoint,
+	}
+	go s.KeySet()
+	return s
+}
+
 // KeySet returns the instance's keyset
 func (s *RemoteService) KeySet() keyset.KeySet {
 	jwksURL := s.config().JwksURL
@@ -93,11 +103,10 @@ func (s *RemoteService) KeySet() keyset.KeySet {
 	if jwks != nil || jwksURL == "" {
 		return jwks
 	}
-	created := keyset.New(jwksURL, s.httpclient)
 	s.mutex.Lock()
 	defer s.mutex.Unlock()
 	if s.jwks == nil {
-		s.jwks = created
+		s.jwks = keyset.NewAsync(jwksURL)
 	}
 	return s.jwks
 }
diff --git a/adapter/authserver/keyset/keyset.go b/adapter/authserver/keyset/keyset.go
index 2da32e8..28e1d27 100644
--- a/adapter/authserver/keyset/keyset.go
+++ b/adapter/authserver/keyset/keyset.go
@@ -54,6 +54,16 @@ func New(publicKeyURL string, httpClient *networking.HTTPClient) KeySet {
 	return &pku
 }
 
+// NewAsync creates a new Public Key Util which retrieves its keys in the background
+func NewAsync(publicKeyURL string) KeySet {
+	pku := &RemoteKeySet{
+		publicKeyURL: publicKeyURL,
+		httpClient:   networking.New(),
+	}
+	go func() { _ = pku.updateKeysGrouped() }()
+	return pku
+}
+
 ////////////////// instance methods  //////////////////////////
 
 // PublicKey returns the public key with the specified kid
diff --git a/adapter/policy/handler/crdeventhandler/add_event.go b/adapter/policy/handler/crdeventhandler/add_event.go
index f0fc886..ec85ee7 100644
--- a/adapter/policy/handler/crdeventhandler/add_event.go
+++ b/adapter/policy/handler/crdeventhandler/add_event.go
@@ -34,7 +34,7 @@ type PolicyAddEventHandler struct {
 func (e *JwtConfigAddEventHandler) HandleAddUpdateEvent() {
 	zap.L().Info("Create/Update JwtConfig", zap.String("ID", string(e.Obj.ObjectMeta.UID)), zap.String("name", e.Obj.Name), zap.String("namespace", e.Obj.Namespace))
 	e.Obj.Spec.ClientName = e.Obj.ObjectMeta.Namespace + "/" + e.Obj.ObjectMeta.Name
-	e.Store.AddKeySet(e.Obj.Spec.ClientName, keyset.New(e.Obj.Spec.JwksURL, nil))
+	e.Store.AddKeySet(e.Obj.Spec.ClientName, keyset.NewAsync(e.Obj.Spec.JwksURL))
 	zap.L().Info("JwtConfig created/updated", zap.String("ID", string(e.Obj.ObjectMeta.UID)), zap.String("name", e.Obj.ObjectMeta.Name), zap.String("namespace", e.Obj.ObjectMeta.Namespace))
 }
 
@@ -44,12 +44,8 @@ func (e *OidcConfigAddEventHandler) HandleAddUpdateEvent() {
 	if e.Obj.Spec.AuthMethod == "" {
 		e.Obj.Spec.AuthMethod = "client_secret_basic"
 	}
-	authorizationServer := authserver.New(e.Obj.Spec.DiscoveryURL)
-	// While the discovery endpoint is unavailable the keys' URL is unknown: the
-	// authorization server will set its keys up once it could be discovered
-	if jwksURL := authorizationServer.JwksEndpoint(); jwksURL != "" {
-		authorizationServer.SetKeySet(keyset.New(jwksURL, nil))
-	}
+	// A provider that does not answer must not hold up the configurations of others
+	authorizationServer := authserver.NewAsync(e.Obj.Spec.DiscoveryURL)
 	e.Obj.Spec.ClientSecret = GetClientSecret(e.Obj, e.KubeClient)
 	// Create and store OIDC Client
 	oidcClient := client.New(e.Obj.Spec, authorizationServer)
-- 
2.43.0


From 8c6d79a3cedcbb6c420340ce08b68d79daccd185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:09 +0000
Subject: [PATCH 26/32] fix: RSA exponents were cut to their first four bytes,
 and an exponent of one was accepted, so that anyone could sign tokens

---
 adapter/authserver/keyset/key.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/adapter/authserver/keyset/key.go b/adapter/authserver/keyset/key.go
index 3b1f358..a7243be 100644
--- a/adapter/authserver/keyset/key.go
+++ b/adapter/authserver/keyset/key.go
@@ -4,7 +4,6 @@ import (
 	"crypto"
 	"crypto/rsa"
 	"encoding/base64"
-	"encoding/binary"
 	"errors"
 	"fmt"
 	"math/big"
@@ -68,15 +67,15 @@ func (k *key) decodePublicKey() (crypto.PublicKey, error) {
 		if err != nil {
 			return nil, errors.New("malformed JWK RSA key exponent")
 		}
-		if len(data) < 4 {
-			ndata := make([]byte, 4)
-			copy(ndata[4-len(data):], data)
-			data = ndata
+		// An exponent of 1 would make every padded digest its own signature
+		exponent := new(big.Int).SetBytes(data)
+		if exponent.BitLen() < 2 || exponent.BitLen() > 31 {
+			return nil, errors.New("malformed JWK RSA key exponent")
 		}
 
 		pubKey := &rsa.PublicKey{
 			N: &big.Int{},
-			E: int(binary.BigEndian.Uint32(data)),
+			E: int(exponent.Int64()),
 		}
 
 		data, err = safeDecode(k.N)
-- 
2.43.0


From 999919232d7a3c19a1234ee76aadbcff682418bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:09 +0000
Subject: [PATCH 27/32] fix: a malformed authorization endpoint led to
 redirects without location

---
 adapter/strategy/web/web.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index 46b28d9..47e4b46 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -357,6 +357,10 @@ func (w *WebStrategy) handleAuthorizationCodeFlow(request *authnz.RequestMsg, ac
 		zap.L().Info("Could not generate state parameter", zap.Error(err), zap.String("client_name", action.Client.Name()))
 		return nil, err
 	}
+	authorizationURL := generateAuthorizationURL(action.Client, redirectURI, state)
+	if authorizationURL == "" {
+		return nil, errors.New("identity provider's authorization endpoint is malformed")
+	}
 	zap.S().Debugf("Initiating redirect to identity provider using redirect URL: %s", redirectURI)
 	return &authnz.HandleAuthnZResponse{
 		Result: &v1beta1.CheckResult{
@@ -366,7 +370,7 @@ func (w *WebStrategy) handleAuthorizationCodeFlow(request *authnz.RequestMsg, ac
 				Details: []*types.Any{status.PackErrorDetail(&policy.DirectHttpResponse{
 					Code: policy.Found, // Response Mixer remaps on request
 					Headers: map[string]string{
-						location:  generateAuthorizationURL(action.Client, redirectURI, state),
+						location:  authorizationURL,
 						setCookie: stateCookie.String(),
 					},
 				})},
-- 
2.43.0


From 7ac948b39d13ecc0702045cec092a70adab106e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:18 +0000
Subject: [PATCH 28/32] fix: a passing failure to read a client secret made the
 adapter use another secret for good

---
 .../policy/handler/crdeventhandler/utils.go   | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/adapter/policy/handler/crdeventhandler/utils.go b/adapter/policy/handler/crdeventhandler/utils.go
index bba848d..53011e8 100644
--- a/adapter/policy/handler/crdeventhandler/utils.go
+++ b/adapter/policy/handler/crdeventhandler/utils.go
@@ -5,12 +5,21 @@ import (
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
 
 	"strings"
+	"time"
 
 	k8sv1 "k8s.io/api/core/v1"
+	"k8s.io/apimachinery/pkg/api/errors"
 	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
 	"k8s.io/client-go/kubernetes"
 )
 
+const (
+	// secretRetries is how often reading a secret is tried again after a failure that may pass
+	secretRetries = 4
+	// secretRetryInterval is the time before the first retry; it doubles with each one
+	secretRetryInterval = 50 * time.Millisecond
+)
+
 func getEndpoint(service policy.Service, method policy.Method, path string) policy.Endpoint {
 	return  policy.Endpoint{
 		Service: service,
@@ -63,5 +72,13 @@ func ParseTarget(target []v1.TargetElement, namespace string) []policy.PolicyMap
 }
 
 func GetKubeSecret(kubeClient kubernetes.Interface, namespace string, ref v1.ClientSecretRef) (*k8sv1.Secret, error) {
-	return kubeClient.CoreV1().Secrets(namespace).Get(ref.Name, metav1.GetOptions{})
+	secret, err := kubeClient.CoreV1().Secrets(namespace).Get(ref.Name, metav1.GetOptions{})
+	// Only a missing secret is final; other failures (timeouts, a busy API server) may pass
+	wait := secretRetryInterval
+	for retry := 0; retry < secretRetries && err != nil && !errors.IsNotFound(err); retry++ {
+		time.Sleep(wait)
+		wait *= 2
+		secret, err = kubeClient.CoreV1().Secrets(namespace).Get(ref.Name, metav1.GetOptions{})
+	}
+	return secret, err
 }
\ No newline at end of file
-- 
2.43.0


From 272bbdc4b5ad3cc4cee701b1bb0b95074bda7207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:35 +0000
Subject: [PATCH 29/32] fix: Mixer reused passes after logouts and expiries, as
 results carried no validity

---
 adapter/adapter.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/adapter/adapter.go b/adapter/adapter.go
index c826d7f..80c31af 100644
--- a/adapter/adapter.go
+++ b/adapter/adapter.go
@@ -11,6 +11,7 @@ import (
 	"fmt"
 	"net"
 	"strings"
+	"time"
 
 	"go.uber.org/zap"
 	"google.golang.org/grpc"
@@ -66,10 +67,10 @@ func (s *AppidAdapter) HandleAuthnZ(ctx context.Context, r *authnz.HandleAuthnZR
 	switch action.Type {
 	case policy.JWT:
 		zap.L().Info("Executing JWT policies")
-		return s.apistrategy.HandleAuthnZRequest(r, action)
+		return decidedAnew(s.apistrategy.HandleAuthnZRequest(r, action))
 	case policy.OIDC:
 		zap.L().Info("Executing OIDC policies")
-		return s.webstrategy.HandleAuthnZRequest(r, action)
+		return decidedAnew(s.webstrategy.HandleAuthnZRequest(r, action))
 	default:
 		zap.L().Info("No OIDC/JWT policies configured")
 		return &authnz.HandleAuthnZResponse{
@@ -78,6 +79,16 @@ func (s *AppidAdapter) HandleAuthnZ(ctx context.Context, r *authnz.HandleAuthnZR
 	}
 }
 
+// decidedAnew keeps Mixer from reusing a pass. A successful result without validity is taken
+// as valid for a minute, which would let requests through after a logout or the token's expiry.
+func decidedAnew(res *authnz.HandleAuthnZResponse, err error) (*authnz.HandleAuthnZResponse, error) {
+	if res != nil && res.Result != nil && status.IsOK(res.Result.Status) &&
+		res.Result.ValidDuration == 0 && res.Result.ValidUseCount == 0 {
+		res.Result.ValidDuration = time.Nanosecond
+	}
+	return res, err
+}
+
 ////////////////// server //////////////////////////
 
 // Addr returns the listening address of the server
-- 
2.43.0


From f0a39f2bd16602e4184bf904c746af64f42a62cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:53 +0000
Subject: [PATCH 30/32] fix: rejected opaque tokens are not logged

An access token that the userinfo endpoint rejects, or that could not be checked because
the endpoint does not answer, may well be valid elsewhere or later.
---
 adapter/validator/validator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/adapter/validator/validator.go b/adapter/validator/validator.go
index e825c64..9933572 100644
--- a/adapter/validator/validator.go
+++ b/adapter/validator/validator.go
@@ -160,14 +160,14 @@ func validateAccessTokenString(userInfoEndpoint string, tokenStr string, rules [
 	req.Header.Set("Authorization", "Bearer " + tokenStr)
 	res, err := client.Do(req)
 	if err != nil {
-		zap.L().Warn("Unauthorized - invalid token", zap.String("token", tokenStr), zap.Error(err))
+		zap.L().Warn("Unauthorized - invalid token", zap.Error(err))
 		return errors.UnauthorizedHTTPException(err.Error(), findRequiredScopes(rules))
 	}
 
 	defer res.Body.Close()
 
 	if res.StatusCode != http.StatusOK {
-		zap.L().Warn("Unauthorized - invalid token", zap.String("token", tokenStr), zap.Int("res.StatusCode", res.StatusCode))
+		zap.L().Warn("Unauthorized - invalid token", zap.Int("res.StatusCode", res.StatusCode))
 		return errors.UnauthorizedHTTPException("Unauthorized - invalid token", findRequiredScopes(rules))
 	}
 
-- 
2.43.0


From 3d3910e3fff6c63e0e2af8453f4d3999456d462a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:56 +0000
Subject: [PATCH 31/32] fix: incomplete requests are not logged as a whole

They may contain the user's tokens, cookies and codes.
---
 adapter/adapter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adapter/adapter.go b/adapter/adapter.go
index 80c31af..df93911 100644
--- a/adapter/adapter.go
+++ b/adapter/adapter.go
@@ -53,7 +53,7 @@ type (
 func (s *AppidAdapter) HandleAuthnZ(ctx context.Context, r *authnz.HandleAuthnZRequest) (*authnz.HandleAuthnZResponse, error) {
 	///// Validate input /////
 	if err := validateAuthnzRequest(r); err != nil {
-		zap.S().Errorf("Unexpected template format for HandleAuthnZRequest: %v", r)
+		zap.L().Error("Unexpected template format for HandleAuthnZRequest", zap.Error(err))
 		return nil, err
 	}
 
-- 
2.43.0


From 822e5875d5eafdfe0ae97463ff7d074955c262f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:01 +0000
Subject: [PATCH 32/32] fix: paths of deleted policies are not kept

A policy's paths stayed in the store after it was deleted or replaced, so that memory grew
with every change of a policy's paths.
---
 adapter/policy/store/policy/localstore.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/adapter/policy/store/policy/localstore.go b/adapter/policy/store/policy/localstore.go
index 5a9a0a2..74a1929 100644
--- a/adapter/policy/store/policy/localstore.go
+++ b/adapter/policy/store/policy/localstore.go
@@ -152,6 +152,9 @@ func (s *LocalStore) setPolicies(endpoint policy.Endpoint, actions policy.RouteP
 			obj[endpoint.Method] = heir // released, but another policy still lists the endpoint
 		} else {
 			delete(obj, endpoint.Method) // released: less specific entries apply again
+			if len(obj) == 0 {
+				s.policies[endpoint.Service].Delete(endpoint.Path) // nor is the path kept
+			}
 		}
 	} else if ok {
 		obj[endpoint.Method] = actions
-- 
2.43.0

