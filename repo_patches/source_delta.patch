From 3b62af76520575eba84a85805c319f9a2b357bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:57 +0000
Subject: [PATCH 01/78] fix: keep the policy states when a dataset is created
 from arrays

---
 mushroom_rl/core/dataset.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/core/dataset.py b/mushroom_rl/core/dataset.py
index c11fd03..e001673 100644
--- a/mushroom_rl/core/dataset.py
+++ b/mushroom_rl/core/dataset.py
@@ -212,11 +212,14 @@ class Dataset(Serializable):
 
         dataset._array_backend = ArrayBackend.get_array_backend(backend)
         if backend == 'numpy':
-            dataset._data = NumpyDataset.from_array(states, actions, rewards, next_states, absorbings, lasts)
+            dataset._data = NumpyDataset.from_array(states, actions, rewards, next_states, absorbings, lasts,
+                                                    policy_state, policy_next_state)
         elif backend == 'torch':
-            dataset._data = TorchDataset.from_array(states, actions, rewards, next_states, absorbings, lasts)
+            dataset._data = TorchDataset.from_array(states, actions, rewards, next_states, absorbings, lasts,
+                                                    policy_state, policy_next_state)
         else:
-            dataset._data = ListDataset.from_array(states, actions, rewards, next_states, absorbings, lasts)
+            dataset._data = ListDataset.from_array(states, actions, rewards, next_states, absorbings, lasts,
+                                                   policy_state, policy_next_state)
 
         state_shape = states.shape[1:]
         action_shape = actions.shape[1:]
-- 
2.43.0


From e5ce5e61331d5cab689d72585ee19a4967066b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:57 +0000
Subject: [PATCH 02/78] fix: evaluate does not inherit the fit schedule of a
 previous learn

---
 mushroom_rl/core/_impl/core_logic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mushroom_rl/core/_impl/core_logic.py b/mushroom_rl/core/_impl/core_logic.py
index db187e3..74a442f 100644
--- a/mushroom_rl/core/_impl/core_logic.py
+++ b/mushroom_rl/core/_impl/core_logic.py
@@ -32,6 +32,9 @@ class CoreLogic(object):
             self.fit_required = self._fit_episodes_condition
 
     def initialize_evaluate(self):
+        self._n_steps_per_fit = None
+        self._n_episodes_per_fit = None
+
         self.fit_required = lambda: False
 
     def initialize_run(self, n_steps, n_episodes, initial_states, quiet):
-- 
2.43.0


From 32d3a064757643030f5351d53f4b59d9b7c3de47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:57 +0000
Subject: [PATCH 03/78] fix: do not apply the state preprocessors to the
 (state, info) tuple in VectorCore reset

---
 mushroom_rl/core/vectorized_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/core/vectorized_core.py b/mushroom_rl/core/vectorized_core.py
index 58fdf5d..8e89cf6 100644
--- a/mushroom_rl/core/vectorized_core.py
+++ b/mushroom_rl/core/vectorized_core.py
@@ -183,7 +183,7 @@ class VectorCore(object):
             
         initial_state = self._core_logic.get_initial_state(initial_states)
 
-        state, episode_info = self._preprocess(self.env.reset_all(reset_mask, initial_state))
+        state, episode_info = self.env.reset_all(reset_mask, initial_state)
 
         policy_state, current_theta = self.agent.episode_start_vectorized(state, episode_info, reset_mask)
         if self._policy_state is None or policy_state is None:
-- 
2.43.0


From 7997385930d1c300ed56401da6e5d8d0f08988e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:57 +0000
Subject: [PATCH 04/78] fix: copying an ExtraInfo keeps the already parsed
 information

---
 mushroom_rl/core/extra_info.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mushroom_rl/core/extra_info.py b/mushroom_rl/core/extra_info.py
index 1b1faf7..dc335f3 100644
--- a/mushroom_rl/core/extra_info.py
+++ b/mushroom_rl/core/extra_info.py
@@ -210,6 +210,7 @@ class ExtraInfo(Serializable, UserDict):
         info._storage = self._storage.copy()
         info._key_mapping = self._key_mapping.copy()
         info._shape_mapping = self._shape_mapping.copy()
+        info._structured_storage = self._structured_storage.copy()
         info.data = self.data.copy()
             
         return info
-- 
2.43.0


From 99f705b96d4811ba3cb909b99ebfeb7921ef2a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:25 +0000
Subject: [PATCH 05/78] fix: vectorized fits consume every collected step
 exactly once

The samples left over when the number of collected steps is not a multiple of
n_steps_per_fit were taken from the wrong rows, so some samples were used twice,
others never, and the left over data grew until the buffer overflowed.
---
 mushroom_rl/core/_impl/numpy_dataset.py       | 12 ++--
 mushroom_rl/core/_impl/torch_dataset.py       | 12 ++--
 .../core/_impl/vectorized_core_logic.py       |  2 +
 mushroom_rl/core/dataset.py                   | 55 ++++++++-----------
 mushroom_rl/core/vectorized_core.py           |  4 +-
 5 files changed, 40 insertions(+), 45 deletions(-)

diff --git a/mushroom_rl/core/_impl/numpy_dataset.py b/mushroom_rl/core/_impl/numpy_dataset.py
index 4e07b2f..8399610 100644
--- a/mushroom_rl/core/_impl/numpy_dataset.py
+++ b/mushroom_rl/core/_impl/numpy_dataset.py
@@ -172,12 +172,12 @@ class NumpyDataset(Serializable):
                 view._policy_states = np.empty_like(self._policy_states)
                 view._policy_next_states = np.empty_like(self._policy_next_states)
 
-                view._policy_states[:new_len] = self._policy_states[index, ...]
-                view._policy_next_states[:new_len] = self._policy_next_states[index, ...]
+                view._policy_states[:new_len] = self.policy_state[index, ...]
+                view._policy_next_states[:new_len] = self.policy_next_state[index, ...]
 
             if self._mask is not None:
                 view._mask = np.empty_like(self._mask)
-                view._mask[:new_len] = self._mask[index, ...]
+                view._mask[:new_len] = self.mask[index, ...]
         else:
             view._states = self.state[index, ...]
             view._actions = self.action[index, ...]
@@ -188,11 +188,11 @@ class NumpyDataset(Serializable):
             view._len = view._states.shape[0]
 
             if self.is_stateful:
-                view._policy_states = self._policy_states[index, ...]
-                view._policy_next_states = self._policy_next_states[index, ...]
+                view._policy_states = self.policy_state[index, ...]
+                view._policy_next_states = self.policy_next_state[index, ...]
 
             if self._mask is not None:
-                view._mask = self._mask[index, ...]
+                view._mask = self.mask[index, ...]
 
         return view
 
diff --git a/mushroom_rl/core/_impl/torch_dataset.py b/mushroom_rl/core/_impl/torch_dataset.py
index 3bc9066..33c1bcb 100644
--- a/mushroom_rl/core/_impl/torch_dataset.py
+++ b/mushroom_rl/core/_impl/torch_dataset.py
@@ -172,12 +172,12 @@ class TorchDataset(Serializable):
                 view._policy_states = torch.empty_like(self._policy_states)
                 view._policy_next_states = torch.empty_like(self._policy_next_states)
 
-                view._policy_states[:new_len] = self._policy_states[index, ...]
-                view._policy_next_states[:new_len] = self._policy_next_states[index, ...]
+                view._policy_states[:new_len] = self.policy_state[index, ...]
+                view._policy_next_states[:new_len] = self.policy_next_state[index, ...]
 
             if self._mask is not None:
                 view._mask = torch.empty_like(self._mask)
-                view._mask[:new_len] = self._mask[index, ...]
+                view._mask[:new_len] = self.mask[index, ...]
         else:
             view._states = self.state[index, ...]
             view._actions = self.action[index, ...]
@@ -188,11 +188,11 @@ class TorchDataset(Serializable):
             view._len = view._states.shape[0]
 
             if self.is_stateful:
-                view._policy_states = self._policy_states[index, ...]
-                view._policy_next_states = self._policy_next_states[index, ...]
+                view._policy_states = self.policy_state[index, ...]
+                view._policy_next_states = self.policy_next_state[index, ...]
 
             if self._mask is not None:
-                view._mask = self._mask[index, ...]
+                view._mask = self.mask[index, ...]
 
         return view
 
diff --git a/mushroom_rl/core/_impl/vectorized_core_logic.py b/mushroom_rl/core/_impl/vectorized_core_logic.py
index 24ec612..f52640b 100644
--- a/mushroom_rl/core/_impl/vectorized_core_logic.py
+++ b/mushroom_rl/core/_impl/vectorized_core_logic.py
@@ -64,11 +64,13 @@ class VectorizedCoreLogic(CoreLogic):
         self._episodes_progress_bar.update(completed)
 
     def after_fit_vectorized(self, last):
+        residual_steps = self._current_steps_counter - (self._n_steps_per_fit or 0)
         super().after_fit()
         if self._n_episodes_per_fit is not None:
             self._running_envs = self._array_backend.zeros(self._n_envs, dtype=bool)
             return self._array_backend.ones(self._n_envs, dtype=bool)
         else:
+            self._current_steps_counter = residual_steps
             return last
 
     def _reset_counters(self):
diff --git a/mushroom_rl/core/dataset.py b/mushroom_rl/core/dataset.py
index e001673..86ed30c 100644
--- a/mushroom_rl/core/dataset.py
+++ b/mushroom_rl/core/dataset.py
@@ -567,17 +567,13 @@ class VectorizedDataset(Dataset):
 
         residual_data = None
         if n_steps_per_fit is not None:
-            n_steps_dataset = self._data.mask.sum().item()
+            residual_mask = self._data.mask & ~self._select_first_steps(n_steps_per_fit)
 
-            if n_steps_dataset > n_steps_per_fit:
-                n_extra_steps = n_steps_dataset - n_steps_per_fit
-                n_parallel_steps = int(np.ceil(n_extra_steps / self._dataset_info.n_envs))
+            if residual_mask.any():
+                n_parallel_steps = len(self) - int(self._array_backend.where(residual_mask.any(1))[0][0])
                 view_size = slice(-n_parallel_steps, None)
                 residual_data = self._data.get_view(view_size, copy=True)
-                mask = residual_data.mask
-                original_shape = mask.shape
-                mask.flatten()[n_extra_steps:] = False
-                residual_data.mask = mask.reshape(original_shape)
+                residual_data.mask = residual_mask[view_size]
 
                 residual_info = self._info.get_view(view_size, copy=True)
                 residual_episode_info = self._episode_info.get_view(view_size, copy=True)
@@ -594,39 +590,30 @@ class VectorizedDataset(Dataset):
         if len(self) == 0:
             return None
 
-        states = self._array_backend.pack_padded_sequence(self._data.state, self._data.mask)
-        actions = self._array_backend.pack_padded_sequence(self._data.action, self._data.mask)
-        rewards = self._array_backend.pack_padded_sequence(self._data.reward, self._data.mask)
-        next_states = self._array_backend.pack_padded_sequence(self._data.next_state, self._data.mask)
-        absorbings = self._array_backend.pack_padded_sequence(self._data.absorbing, self._data.mask)
+        mask = self._data.mask if n_steps_per_fit is None else self._select_first_steps(n_steps_per_fit)
 
-        last_padded = self._data.last
+        states = self._array_backend.pack_padded_sequence(self._data.state, mask)
+        actions = self._array_backend.pack_padded_sequence(self._data.action, mask)
+        rewards = self._array_backend.pack_padded_sequence(self._data.reward, mask)
+        next_states = self._array_backend.pack_padded_sequence(self._data.next_state, mask)
+        absorbings = self._array_backend.pack_padded_sequence(self._data.absorbing, mask)
+
+        last_padded = self._array_backend.copy(self._data.last)
         last_padded[-1, :] = True
-        lasts = self._array_backend.pack_padded_sequence(last_padded, self._data.mask)
+        last_padded[:-1] |= mask[:-1] & ~mask[1:]
+        lasts = self._array_backend.pack_padded_sequence(last_padded, mask)
 
         policy_state = None
         policy_next_state = None
 
         if self._data.is_stateful:
-            policy_state = self._array_backend.pack_padded_sequence(self._data.policy_state, self._data.mask)
-            policy_next_state = self._array_backend.pack_padded_sequence(self._data.policy_next_state, self._data.mask)
-
-        if n_steps_per_fit is not None:
-            states = states[:n_steps_per_fit]
-            actions = actions[:n_steps_per_fit]
-            rewards = rewards[:n_steps_per_fit]
-            next_states = next_states[:n_steps_per_fit]
-            absorbings = absorbings[:n_steps_per_fit]
-            lasts = lasts[:n_steps_per_fit]
-
-            if self._data.is_stateful:
-                policy_state = policy_state[:n_steps_per_fit]
-                policy_next_state = policy_next_state[:n_steps_per_fit]
+            policy_state = self._array_backend.pack_padded_sequence(self._data.policy_state, mask)
+            policy_next_state = self._array_backend.pack_padded_sequence(self._data.policy_next_state, mask)
 
         flat_theta_list = self._flatten_theta_list()
 
-        flat_info = self._info.flatten(self.mask)
-        flat_episode_info = self._episode_info.flatten(self.mask)
+        flat_info = self._info.flatten(mask)
+        flat_episode_info = self._episode_info.flatten(mask)
 
         return Dataset.from_array(states, actions, rewards, next_states, absorbings, lasts,
                                   policy_state=policy_state, policy_next_state=policy_next_state,
@@ -634,6 +621,12 @@ class VectorizedDataset(Dataset):
                                   horizon=self._dataset_info.horizon, gamma=self._dataset_info.gamma,
                                   backend=self._array_backend.get_backend_name())
 
+    def _select_first_steps(self, n_steps):
+        # Mask of the oldest n_steps samples, i.e. the ones used by the current fit
+        mask = self._data.mask
+
+        return mask & (mask.reshape(-1).cumsum(0).reshape(mask.shape) <= n_steps)
+
     def _flatten_theta_list(self):
         flat_theta_list = list()
 
diff --git a/mushroom_rl/core/vectorized_core.py b/mushroom_rl/core/vectorized_core.py
index 8e89cf6..53c8678 100644
--- a/mushroom_rl/core/vectorized_core.py
+++ b/mushroom_rl/core/vectorized_core.py
@@ -120,13 +120,13 @@ class VectorCore(object):
 
             last = samples[5]
 
-            if self._core_logic.fit_required():
+            while self._core_logic.fit_required():
                 fit_dataset = dataset.flatten(self._core_logic.n_steps_per_fit)
                 self.agent.fit(fit_dataset)
                 last = self._core_logic.after_fit_vectorized(last)
 
                 for c in self.callbacks_fit:
-                    c(dataset)
+                    c(fit_dataset)
 
                 dataset.clear(self._core_logic.n_steps_per_fit)
 
-- 
2.43.0


From a72fc0cf6693985b8f93b9ff5497cd0ca60df0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:42 +0000
Subject: [PATCH 06/78] fix: reset the parallel environments to the complete
 initial state

The worker received the initial state of its own environment, but passed only the first component of it to the
environment.
---
 mushroom_rl/core/multiprocess_environment.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/mushroom_rl/core/multiprocess_environment.py b/mushroom_rl/core/multiprocess_environment.py
index 6f56685..cc09853 100644
--- a/mushroom_rl/core/multiprocess_environment.py
+++ b/mushroom_rl/core/multiprocess_environment.py
@@ -21,11 +21,8 @@ def _env_worker(remote, env_class, use_generator, args, kwargs):
                 res = env.step(action)
                 remote.send(res)
             elif cmd == 'reset':
-                if data is not None:
-                    init_states = data[0]
-                else:
-                    init_states = None
-                res = env.reset(init_states)
+                init_state = data
+                res = env.reset(init_state)
                 remote.send(res)
             elif cmd == 'render':
                 record = data
-- 
2.43.0


From 06adeb171459be351d40518eda47c85b1080e0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:42:50 +0000
Subject: [PATCH 07/78] fix: detect dead environment workers and clean up after
 them

The parent kept the worker ends of the pipes open, so the death of a worker blocked the parent for ever instead of
raising an error. Furthermore, the destructor failed on the pipe of a dead worker and left the other workers running.
---
 mushroom_rl/core/multiprocess_environment.py | 21 ++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/mushroom_rl/core/multiprocess_environment.py b/mushroom_rl/core/multiprocess_environment.py
index cc09853..d7d9d83 100644
--- a/mushroom_rl/core/multiprocess_environment.py
+++ b/mushroom_rl/core/multiprocess_environment.py
@@ -69,15 +69,19 @@ class MultiprocessEnvironment(VectorizedEnvironment):
         if n_envs == -1:
             n_envs = cpu_count()
 
-        self._remotes, self._work_remotes = zip(*[Pipe() for _ in range(n_envs)])
+        self._remotes = list()
         self._processes = list()
 
-        for work_remote in self._work_remotes:
+        for _ in range(n_envs):
+            remote, work_remote = Pipe()
             worker_process = Process(target=_env_worker, args=(work_remote, env_class, use_generator, args, kwargs))
-            self._processes.append(worker_process)
+            worker_process.start()
+
+            # Only the worker must hold its end of the pipe, otherwise the death of the worker cannot be detected
+            work_remote.close()
 
-        for p in self._processes:
-            p.start()
+            self._remotes.append(remote)
+            self._processes.append(worker_process)
 
         self._remotes[0].send(('info', None))
         mdp_info = self._remotes[0].recv()
@@ -158,7 +162,12 @@ class MultiprocessEnvironment(VectorizedEnvironment):
     def __del__(self):
         if hasattr(self, '_remotes'):
             for remote in self._remotes:
-                remote.send(('close', None))
+                try:
+                    remote.send(('close', None))
+                except OSError:
+                    pass  # The worker is already dead
+
+                remote.close()
         if hasattr(self, '_processes'):
             for p in self._processes:
                 p.join()
-- 
2.43.0


From 5ad078f539c310c910ed65d42abfb8b0bfc37a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:33 +0000
Subject: [PATCH 08/78] fix: VectorCore evaluates each of the given initial
 states once

A single initial state was passed to the vectorized environments, which expect one initial state per environment.
---
 .../core/_impl/vectorized_core_logic.py        | 18 +++++++++++++-----
 mushroom_rl/core/vectorized_core.py            |  2 +-
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/mushroom_rl/core/_impl/vectorized_core_logic.py b/mushroom_rl/core/_impl/vectorized_core_logic.py
index f52640b..c909b88 100644
--- a/mushroom_rl/core/_impl/vectorized_core_logic.py
+++ b/mushroom_rl/core/_impl/vectorized_core_logic.py
@@ -7,6 +7,7 @@ class VectorizedCoreLogic(CoreLogic):
         self._array_backend = ArrayBackend.get_array_backend(backend)
         self._n_envs = n_envs
         self._running_envs = self._array_backend.zeros(n_envs, dtype=bool)
+        self._started_episodes_counter = None
 
         super().__init__()
 
@@ -44,11 +45,17 @@ class VectorizedCoreLogic(CoreLogic):
 
         return mask
 
-    def get_initial_state(self, initial_states):
-        if initial_states is None or self._total_episodes_counter >= self._n_episodes:
-            initial_state = None
-        else:
-            initial_state = initial_states[self._total_episodes_counter]  # FIXME
+    def get_initial_state(self, initial_states, reset_mask):
+        if initial_states is None:
+            return None
+
+        n_started = self._started_episodes_counter
+        n_resets = reset_mask.sum().item()
+        self._started_episodes_counter += n_resets
+
+        initial_states = self._array_backend.convert(initial_states)
+        initial_state = self._array_backend.zeros(self._n_envs, *initial_states.shape[1:], dtype=initial_states.dtype)
+        initial_state[reset_mask] = initial_states[n_started:n_started + n_resets]
 
         return initial_state
 
@@ -75,6 +82,7 @@ class VectorizedCoreLogic(CoreLogic):
 
     def _reset_counters(self):
         super()._reset_counters()
+        self._started_episodes_counter = 0
         self._running_envs = self._array_backend.zeros(self._n_envs, dtype=bool)
 
     @property
diff --git a/mushroom_rl/core/vectorized_core.py b/mushroom_rl/core/vectorized_core.py
index 53c8678..f74973d 100644
--- a/mushroom_rl/core/vectorized_core.py
+++ b/mushroom_rl/core/vectorized_core.py
@@ -181,7 +181,7 @@ class VectorCore(object):
         """
         reset_mask = last & mask
             
-        initial_state = self._core_logic.get_initial_state(initial_states)
+        initial_state = self._core_logic.get_initial_state(initial_states, reset_mask)
 
         state, episode_info = self.env.reset_all(reset_mask, initial_state)
 
-- 
2.43.0


From 30559ab97e90041bb17a406d146d66835efcdd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:00 +0000
Subject: [PATCH 09/78] fix: DDPG and TD3 learn from the samples of the replay
 memory

The fit raised an error as soon as the replay memory was initialized: the
samples contain the policy states of the noise process, the absorbing flag
is a boolean tensor and the smoothed action is a tensor.
---
 .../actor_critic/deep_actor_critic/ddpg.py         |  4 ++--
 .../actor_critic/deep_actor_critic/td3.py          | 14 +++++++-------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py
index 57e3bd3..e81daef 100644
--- a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py
+++ b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py
@@ -96,7 +96,7 @@ class DDPG(DeepAC):
     def fit(self, dataset):
         self._replay_memory.add(dataset)
         if self._replay_memory.initialized:
-            state, action, reward, next_state, absorbing, _ = self._replay_memory.get(self._batch_size())
+            state, action, reward, next_state, absorbing, *_ = self._replay_memory.get(self._batch_size())
 
             q_next = self._next_q(next_state, absorbing)
             q = reward + self.mdp_info.gamma * q_next
@@ -134,7 +134,7 @@ class DDPG(DeepAC):
         a = self._target_actor_approximator.predict(next_state, **self._actor_predict_params)
 
         q = self._target_critic_approximator.predict(next_state, a, **self._critic_predict_params)
-        q *= 1 - absorbing
+        q *= 1 - absorbing.to(int)
 
         return q
 
diff --git a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py
index 65cf027..ea03e52 100644
--- a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py
+++ b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py
@@ -1,4 +1,4 @@
-import numpy as np
+import torch
 
 from mushroom_rl.algorithms.actor_critic.deep_actor_critic import DDPG
 from mushroom_rl.policy import Policy
@@ -81,14 +81,14 @@ class TD3(DDPG):
         """
         a = self._target_actor_approximator(next_state, **self._actor_predict_params)
 
-        low = self.mdp_info.action_space.low
-        high = self.mdp_info.action_space.high
-        eps = np.random.normal(scale=self._noise_std(), size=a.shape)
-        eps_clipped = np.clip(eps, -self._noise_clip(), self._noise_clip.get_value())
-        a_smoothed = np.clip(a + eps_clipped, low, high)
+        low = torch.as_tensor(self.mdp_info.action_space.low, dtype=a.dtype, device=a.device)
+        high = torch.as_tensor(self.mdp_info.action_space.high, dtype=a.dtype, device=a.device)
+        eps = torch.randn_like(a) * self._noise_std()
+        eps_clipped = torch.clamp(eps, -self._noise_clip(), self._noise_clip.get_value())
+        a_smoothed = torch.clamp(a + eps_clipped, low, high)
 
         q = self._target_critic_approximator.predict(next_state, a_smoothed,
                                                      prediction='min', **self._critic_predict_params)
-        q *= 1 - absorbing
+        q *= 1 - absorbing.to(int)
 
         return q
-- 
2.43.0


From c13ea82546154a1a05755740f58edc5c13d92dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:09 +0000
Subject: [PATCH 10/78] fix: the environment workers do not block the end of
 the program

---
 mushroom_rl/core/multiprocess_environment.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/core/multiprocess_environment.py b/mushroom_rl/core/multiprocess_environment.py
index d7d9d83..c0289a4 100644
--- a/mushroom_rl/core/multiprocess_environment.py
+++ b/mushroom_rl/core/multiprocess_environment.py
@@ -74,7 +74,9 @@ class MultiprocessEnvironment(VectorizedEnvironment):
 
         for _ in range(n_envs):
             remote, work_remote = Pipe()
-            worker_process = Process(target=_env_worker, args=(work_remote, env_class, use_generator, args, kwargs))
+            # Daemonic workers do not block the end of the program if the environment is still alive
+            worker_process = Process(target=_env_worker, args=(work_remote, env_class, use_generator, args, kwargs),
+                                     daemon=True)
             worker_process.start()
 
             # Only the worker must hold its end of the pipe, otherwise the death of the worker cannot be detected
-- 
2.43.0


From 2628e8aeba371bd260f5f388f6116d9684928692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:53 +0000
Subject: [PATCH 11/78] fix: a failed save keeps the previously saved object

The archive was truncated before writing, so that an error or a crash during
the save destroyed the last good copy. Write a temporary file and replace.
---
 mushroom_rl/core/serialization.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/core/serialization.py b/mushroom_rl/core/serialization.py
index fc0a2a3..f2a597b 100644
--- a/mushroom_rl/core/serialization.py
+++ b/mushroom_rl/core/serialization.py
@@ -32,8 +32,17 @@ class Serializable(object):
         path = Path(path)
         path.parent.mkdir(parents=True, exist_ok=True)
 
-        with ZipFile(path, 'w') as zip_file:
-            self.save_zip(zip_file, full_save)
+        # The data is written in a temporary file, to keep the previously saved object if something goes wrong
+        tmp_path = path.with_name(path.name + '.tmp')
+
+        try:
+            with ZipFile(tmp_path, 'w') as zip_file:
+                self.save_zip(zip_file, full_save)
+
+            tmp_path.replace(path)
+        except BaseException:
+            tmp_path.unlink(missing_ok=True)
+            raise
 
     def save_zip(self, zip_file, full_save, folder=''):
         """
-- 
2.43.0


From 4760121b6bc89582722fd41ad7bdde30d51b7b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:27 +0000
Subject: [PATCH 12/78] fix: a dataset is saved with all its fields

---
 mushroom_rl/core/_impl/list_dataset.py  | 3 ++-
 mushroom_rl/core/_impl/torch_dataset.py | 5 +++--
 mushroom_rl/core/dataset.py             | 1 +
 mushroom_rl/core/extra_info.py          | 3 +++
 4 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/core/_impl/list_dataset.py b/mushroom_rl/core/_impl/list_dataset.py
index d63d030..6bf9d9a 100644
--- a/mushroom_rl/core/_impl/list_dataset.py
+++ b/mushroom_rl/core/_impl/list_dataset.py
@@ -165,6 +165,7 @@ class ListDataset(Serializable):
         self._add_save_attr(
             _dataset='pickle',
             _policy_dataset='pickle',
-            _is_stateful='primitive'
+            _is_stateful='primitive',
+            _mask='pickle'
         )
 
diff --git a/mushroom_rl/core/_impl/torch_dataset.py b/mushroom_rl/core/_impl/torch_dataset.py
index 33c1bcb..87da2b9 100644
--- a/mushroom_rl/core/_impl/torch_dataset.py
+++ b/mushroom_rl/core/_impl/torch_dataset.py
@@ -282,7 +282,8 @@ class TorchDataset(Serializable):
             _next_states='torch',
             _absorbing='torch',
             _last='torch',
-            _policy_states='numpy',
-            _policy_next_states='numpy',
+            _policy_states='torch',
+            _policy_next_states='torch',
+            _mask='torch',
             _len='primitive'
         )
\ No newline at end of file
diff --git a/mushroom_rl/core/dataset.py b/mushroom_rl/core/dataset.py
index 86ed30c..17fb84e 100644
--- a/mushroom_rl/core/dataset.py
+++ b/mushroom_rl/core/dataset.py
@@ -31,6 +31,7 @@ class DatasetInfo(Serializable):
 
         self._add_save_attr(
             backend='primitive',
+            device='primitive',
             gamma='primitive',
             horizon='primitive',
             state_shape='primitive',
diff --git a/mushroom_rl/core/extra_info.py b/mushroom_rl/core/extra_info.py
index dc335f3..dfe038e 100644
--- a/mushroom_rl/core/extra_info.py
+++ b/mushroom_rl/core/extra_info.py
@@ -253,6 +253,9 @@ class ExtraInfo(Serializable, UserDict):
 
     def _add_all_save_attr(self):
         self._add_save_attr(
+            _n_envs='primitive',
+            _array_backend='primitive',
+            _device='primitive',
             data='primitive',
             _storage='primitive',
             _structured_storage='primitive',
-- 
2.43.0


From 5071307d61d6599c1ded8535560185930b529d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:53 +0000
Subject: [PATCH 13/78] fix: load also the MushroomRL objects that are saved
 only with full_save

---
 mushroom_rl/core/serialization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/core/serialization.py b/mushroom_rl/core/serialization.py
index f2a597b..79d2a0e 100644
--- a/mushroom_rl/core/serialization.py
+++ b/mushroom_rl/core/serialization.py
@@ -134,7 +134,8 @@ class Serializable(object):
                 if method == 'primitive' and att in primitive_dictionary:
                     setattr(loaded_object, att, primitive_dictionary[att])
                 elif file_name in zip_file.namelist() or \
-                        (method == 'mushroom' and mandatory):
+                        (method == 'mushroom' and
+                         (mandatory or Serializable._append_folder(file_name, 'config') in zip_file.namelist())):
                     load_method = getattr(cls, '_load_{}'.format(method))
                     if load_method is None:
                         raise NotImplementedError('Method _load_{} is not'
-- 
2.43.0


From f1659143e1f29ec99a4b0f8befc98fc41f68e9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:53 +0000
Subject: [PATCH 14/78] fix: a prioritized replay memory saved without its
 samples is loaded empty

---
 mushroom_rl/rl_utils/replay_memory.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/rl_utils/replay_memory.py b/mushroom_rl/rl_utils/replay_memory.py
index 8b5fb03..ad44a38 100644
--- a/mushroom_rl/rl_utils/replay_memory.py
+++ b/mushroom_rl/rl_utils/replay_memory.py
@@ -289,9 +289,9 @@ class SumTree(Serializable):
         super().__init__()
         self._add_save_attr(
             _max_size="primitive",
-            _idx="primitive",
-            _full="primitive",
-            _tree="numpy",
+            _idx="primitive!",
+            _full="primitive!",
+            _tree="numpy!",
             _mdp_info="mushroom",
             _agent_info="mushroom",
             dataset="mushroom!")
@@ -462,6 +462,9 @@ class SumTree(Serializable):
 
     def _post_load(self):
         if self.dataset is None:
+            self._tree = np.zeros(2 * self._max_size - 1)
+            self._idx = 0
+            self._full = False
             dataset_info = DatasetInfo.create_replay_memory_info(self._mdp_info, self._agent_info)
             self.dataset = Dataset(dataset_info, n_steps=self._max_size)
 
-- 
2.43.0


From ba1b2fbdd1249469244ec56a966079d2ad3a1f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:00 +0000
Subject: [PATCH 15/78] fix: the recurrent policy and PPO_BPTT save all their
 settings

---
 .../algorithms/actor_critic/deep_actor_critic/ppo_bptt.py    | 1 +
 mushroom_rl/policy/recurrent_torch_policy.py                 | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
index 1fb1551..42deb72 100644
--- a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
+++ b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
@@ -67,6 +67,7 @@ class PPO_BPTT(OnPolicyDeepAC):
             _lambda='mushroom',
             _V='mushroom',
             _iter='primitive',
+            _truncation_length='primitive',
             _dim_env_state='primitive'
         )
 
diff --git a/mushroom_rl/policy/recurrent_torch_policy.py b/mushroom_rl/policy/recurrent_torch_policy.py
index 5196084..a176112 100644
--- a/mushroom_rl/policy/recurrent_torch_policy.py
+++ b/mushroom_rl/policy/recurrent_torch_policy.py
@@ -14,6 +14,11 @@ class RecurrentGaussianTorchPolicy(GaussianTorchPolicy):
         self._log_std_min = to_parameter(log_std_min)
         self._log_std_max = to_parameter(log_std_max)
 
+        self._add_save_attr(
+            _log_std_min='mushroom',
+            _log_std_max='mushroom'
+        )
+
     def reset(self):
         return torch.zeros(self.policy_state_shape)
 
-- 
2.43.0


From 0e42b0554b1d9f2fa10987c13e5c65bca00e0949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:00 +0000
Subject: [PATCH 16/78] fix: save the eps of the Adam optimizer

---
 mushroom_rl/rl_utils/optimizers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mushroom_rl/rl_utils/optimizers.py b/mushroom_rl/rl_utils/optimizers.py
index c59c7f3..47335f0 100644
--- a/mushroom_rl/rl_utils/optimizers.py
+++ b/mushroom_rl/rl_utils/optimizers.py
@@ -147,6 +147,7 @@ class AdamOptimizer(Optimizer):
                             _v='numpy',
                             _beta1='primitive',
                             _beta2='primitive',
+                            _eps='primitive',
                             _t='primitive'
                             )
 
-- 
2.43.0


From 9d4ffcd0a571fb7ab4bd497080579a41e7d615e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:00 +0000
Subject: [PATCH 17/78] fix: save the features and the regressors of MORE

---
 .../algorithms/policy_search/black_box_optimization/more.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py b/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py
index 12356ca..bb7e528 100644
--- a/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py
+++ b/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py
@@ -54,7 +54,11 @@ class MORE(BlackBoxOptimization):
         self._add_save_attr(
             eps='primitive',
             h0='primitive',
-            kappa='primitive'
+            kappa='primitive',
+            phi_quadratic_='pickle',
+            phi_linear_='pickle',
+            regressor_quadratic='mushroom',
+            regressor_linear='mushroom'
         )
 
     def _update(self, Jep, theta, context):
-- 
2.43.0


From c8363f9a7d7c0c9dd664c4d04e668d883f442012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:00 +0000
Subject: [PATCH 18/78] fix: the optimizer of a loaded ePPO agent updates the
 loaded distribution

---
 .../algorithms/policy_search/black_box_optimization/eppo.py  | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py b/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py
index 7beb2ef..a25ad78 100644
--- a/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py
+++ b/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py
@@ -2,6 +2,7 @@ import torch
 
 from mushroom_rl.algorithms.policy_search.black_box_optimization import BlackBoxOptimization
 from mushroom_rl.utils.minibatches import minibatch_generator
+from mushroom_rl.utils.torch import TorchUtils
 from mushroom_rl.rl_utils.parameters import to_parameter
 
 
@@ -74,3 +75,7 @@ class ePPO(BlackBoxOptimization):
             context_i = None
 
         return theta_i, context_i, Jep_i, old_dist_i
+
+    def _post_load(self):
+        if self._optimizer is not None:
+            TorchUtils.update_optimizer_parameters(self._optimizer, list(self.distribution.parameters()))
-- 
2.43.0


From be592a6b3226305e424b326ff03a54b8cfecbed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:00 +0000
Subject: [PATCH 19/78] fix: a loaded COPDAC_Q agent learns the regressor used
 by its policy

---
 .../actor_critic/classic_actor_critic/copdac_q.py           | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mushroom_rl/algorithms/actor_critic/classic_actor_critic/copdac_q.py b/mushroom_rl/algorithms/actor_critic/classic_actor_critic/copdac_q.py
index f571b8d..1b43743 100644
--- a/mushroom_rl/algorithms/actor_critic/classic_actor_critic/copdac_q.py
+++ b/mushroom_rl/algorithms/actor_critic/classic_actor_critic/copdac_q.py
@@ -29,6 +29,7 @@ class COPDAC_Q(Agent):
 
         """
         self._mu = mu
+        self._policy_mu_name = next((name for name, value in vars(policy).items() if value is mu), None)
         self._psi = value_function_features
 
         self._alpha_theta = to_parameter(alpha_theta)
@@ -49,6 +50,7 @@ class COPDAC_Q(Agent):
 
         self._add_save_attr(
             _mu='mushroom',
+            _policy_mu_name='primitive',
             _psi='pickle',
             _alpha_theta='mushroom',
             _alpha_omega='mushroom',
@@ -86,6 +88,10 @@ class COPDAC_Q(Agent):
             v_new = self._V.get_weights() + delta_v
             self._V.set_weights(v_new)
 
+    def _post_load(self):
+        if self._policy_mu_name is not None:
+            setattr(self.policy, self._policy_mu_name, self._mu)
+
     def _Q(self, state, action):
         state_psi = self._psi(state) if self._psi is not None else state
 
-- 
2.43.0


From 46eba71195dd5f73cae431ea366e14e9c16409c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:00 +0000
Subject: [PATCH 20/78] fix: a loaded Mellowmax policy uses its own
 approximator

---
 mushroom_rl/policy/td_policy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/policy/td_policy.py b/mushroom_rl/policy/td_policy.py
index 9665802..8941e84 100644
--- a/mushroom_rl/policy/td_policy.py
+++ b/mushroom_rl/policy/td_policy.py
@@ -189,7 +189,7 @@ class Mellowmax(Boltzmann):
 
             self._add_save_attr(
                 _omega='primitive',
-                _outer='primitive',
+                _outer='none',
                 _beta_min='primitive',
                 _beta_max='primitive',
             )
@@ -234,5 +234,8 @@ class Mellowmax(Boltzmann):
     def set_beta(self, beta):
         raise RuntimeError('Cannot change the beta parameter of Mellowmax policy')
 
+    def _post_load(self):
+        self._beta._outer = self
+
     def update(self, *idx):
         raise RuntimeError('Cannot update the beta parameter of Mellowmax policy')
-- 
2.43.0


From 6d72f63bc16afdfbba4a6ef39a893ff5b5c8af97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:00 +0000
Subject: [PATCH 21/78] fix: a BoostedFQI agent saved before its fit can be
 trained once loaded

---
 mushroom_rl/algorithms/value/batch_td/boosted_fqi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/algorithms/value/batch_td/boosted_fqi.py b/mushroom_rl/algorithms/value/batch_td/boosted_fqi.py
index ab68e15..0b23370 100644
--- a/mushroom_rl/algorithms/value/batch_td/boosted_fqi.py
+++ b/mushroom_rl/algorithms/value/batch_td/boosted_fqi.py
@@ -22,7 +22,7 @@ class BoostedFQI(FQI):
             _n_iterations='primitive',
             _quiet='primitive',
             _prediction='primitive',
-            _next_q='numpy',
+            _next_q='pickle',
             _idx='primitive',
             _target='pickle'
         )
-- 
2.43.0


From d8a38d58e7cde74f5a513b4662a27d3537c0c3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:31 +0000
Subject: [PATCH 22/78] fix: loading a file without a saved object is an error

---
 mushroom_rl/core/serialization.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mushroom_rl/core/serialization.py b/mushroom_rl/core/serialization.py
index 79d2a0e..b721ecf 100644
--- a/mushroom_rl/core/serialization.py
+++ b/mushroom_rl/core/serialization.py
@@ -106,6 +106,9 @@ class Serializable(object):
         with ZipFile(path, 'r') as zip_file:
             loaded_object = cls.load_zip(zip_file)
 
+        if loaded_object is None:
+            raise ValueError("The file does not contain a saved object")
+
         return loaded_object
 
     @classmethod
-- 
2.43.0


From a820c39385f5cbe6e055c1d15bd453bee55d5bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:19 +0000
Subject: [PATCH 23/78] fix: a failed write keeps the previously logged data

---
 mushroom_rl/core/logger/data_logger.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/mushroom_rl/core/logger/data_logger.py b/mushroom_rl/core/logger/data_logger.py
index 4426874..3285b8c 100644
--- a/mushroom_rl/core/logger/data_logger.py
+++ b/mushroom_rl/core/logger/data_logger.py
@@ -51,7 +51,7 @@ class DataLogger(object):
             path = self._results_dir / filename
 
             current_data = np.array(self._data_dict[name])
-            np.save(path, current_data)
+            self._write_file(path, np.save, current_data)
 
     def log_numpy_array(self, **kwargs):
         """
@@ -66,7 +66,7 @@ class DataLogger(object):
             filename = name + self._suffix + '.npy'
             path = self._results_dir / filename
 
-            np.save(path, data)
+            self._write_file(path, np.save, data)
 
     def log_agent(self, agent, epoch=None, full_save=False):
         """
@@ -111,8 +111,7 @@ class DataLogger(object):
         filename = 'dataset' + self._suffix + '.pkl'
         path = self._results_dir / filename
 
-        with path.open(mode='wb') as f:
-            pickle.dump(dataset, f)
+        self._write_file(path, lambda f, data: pickle.dump(data, f), dataset)
 
     @property
     def path(self):
@@ -129,3 +128,17 @@ class DataLogger(object):
                     name = re.split(r'-\d+$', file.stem)[0]
                     data = np.load(str(file)).tolist()
                     self._data_dict[name] = data
+
+    @staticmethod
+    def _write_file(path, write, data):
+        # The data is written in a temporary file, to keep the previously logged data if something goes wrong
+        tmp_path = path.with_name(path.name + '.tmp')
+
+        try:
+            with tmp_path.open(mode='wb') as f:
+                write(f, data)
+
+            tmp_path.replace(path)
+        except BaseException:
+            tmp_path.unlink(missing_ok=True)
+            raise
-- 
2.43.0


From b5993d9a283d169e9572091511d8493ed0e1b1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:19 +0000
Subject: [PATCH 24/78] fix: the best agent is compared with the last one that
 was stored

---
 mushroom_rl/core/logger/data_logger.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/core/logger/data_logger.py b/mushroom_rl/core/logger/data_logger.py
index 3285b8c..c918d2c 100644
--- a/mushroom_rl/core/logger/data_logger.py
+++ b/mushroom_rl/core/logger/data_logger.py
@@ -101,12 +101,12 @@ class DataLogger(object):
         """
 
         if J >= self._best_J:
-            self._best_J = J
-
             filename = 'agent' + self._suffix + '-best.msh'
             path = self._results_dir / filename
             agent.save(path, full_save=full_save)
 
+            self._best_J = J
+
     def log_dataset(self, dataset):
         filename = 'dataset' + self._suffix + '.pkl'
         path = self._results_dir / filename
-- 
2.43.0


From 223f31da4fb0e7859bdad69966269d8d454ec700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:19 +0000
Subject: [PATCH 25/78] fix: a logger that appends does not load the data of
 other runs

---
 mushroom_rl/core/logger/data_logger.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/core/logger/data_logger.py b/mushroom_rl/core/logger/data_logger.py
index c918d2c..17a537a 100644
--- a/mushroom_rl/core/logger/data_logger.py
+++ b/mushroom_rl/core/logger/data_logger.py
@@ -125,9 +125,12 @@ class DataLogger(object):
         for file in self._results_dir.iterdir():
             if file.is_file() and file.suffix == '.npy':
                 if file.stem.endswith(self._suffix):
-                    name = re.split(r'-\d+$', file.stem)[0]
-                    data = np.load(str(file)).tolist()
-                    self._data_dict[name] = data
+                    name = file.stem[:len(file.stem) - len(self._suffix)]
+
+                    # The files with another suffix belong to other runs
+                    if not re.search(r'-\d*$', name):
+                        data = np.load(str(file)).tolist()
+                        self._data_dict[name] = data
 
     @staticmethod
     def _write_file(path, write, data):
-- 
2.43.0


From 4a657ed9aeb1a8bdb9d1933abe4776da5c0ab25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:19 +0000
Subject: [PATCH 26/78] fix: a deleted logger does not silence the loggers with
 the same name

---
 mushroom_rl/core/logger/console_logger.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/core/logger/console_logger.py b/mushroom_rl/core/logger/console_logger.py
index f50bf9d..9ae3ddc 100644
--- a/mushroom_rl/core/logger/console_logger.py
+++ b/mushroom_rl/core/logger/console_logger.py
@@ -54,6 +54,7 @@ class ConsoleLogger(object):
         ch.setLevel(console_log_level)
         ch.setFormatter(formatter)
         self._logger.addHandler(ch)
+        self._handlers = [ch]
 
         if log_dir is not None:
             log_file_name = self._log_id if log_file_name is None else log_file_name
@@ -63,6 +64,7 @@ class ConsoleLogger(object):
             fh.setLevel(file_log_level)
             fh.setFormatter(formatter)
             self._logger.addHandler(fh)
+            self._handlers.append(fh)
 
     def debug(self, msg):
         """
@@ -138,4 +140,7 @@ class ConsoleLogger(object):
         self.info(msg)
 
     def __del__(self):
-        self._logger.handlers.clear()
+        # The other loggers with the same id are still in use
+        for handler in self._handlers:
+            self._logger.removeHandler(handler)
+            handler.close()
-- 
2.43.0


From 09eceef4db4d066305e0bfc79b56233ff3450112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:17 +0000
Subject: [PATCH 27/78] fix: adding n-step samples to a replay memory does not
 change the dataset

---
 mushroom_rl/rl_utils/replay_memory.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mushroom_rl/rl_utils/replay_memory.py b/mushroom_rl/rl_utils/replay_memory.py
index ad44a38..44b0e98 100644
--- a/mushroom_rl/rl_utils/replay_memory.py
+++ b/mushroom_rl/rl_utils/replay_memory.py
@@ -71,18 +71,19 @@ class ReplayMemory(Serializable):
         i = 0
         while i < len(dataset) - n_steps_return + 1:
             j = 0
+            n_step_reward = reward[i]
             while j < n_steps_return - 1:
                 if last[i + j]:
                     i += j + 1
                     break
                 j += 1
-                reward[i] += gamma ** j * reward[i + j]
+                n_step_reward = n_step_reward + gamma ** j * reward[i + j]
             else:
 
                 if self._full:
                     self._dataset.state[self._idx] = state[i]
                     self._dataset.action[self._idx] = action[i]
-                    self._dataset.reward[self._idx] = reward[i]
+                    self._dataset.reward[self._idx] = n_step_reward
 
                     self._dataset.next_state[self._idx] = next_state[i + j]
                     self._dataset.absorbing[self._idx] = absorbing[i + j]
@@ -94,7 +95,7 @@ class ReplayMemory(Serializable):
 
                 else:
 
-                    sample = [state[i], action[i], reward[i], next_state[i + j], absorbing[i + j], last[i + j]]
+                    sample = [state[i], action[i], n_step_reward, next_state[i + j], absorbing[i + j], last[i + j]]
 
                     if self._dataset.is_stateful:
                         sample += [policy_state[i], policy_next_state[i+j]]
@@ -321,18 +322,19 @@ class SumTree(Serializable):
         i = 0
         while i < len(dataset) - n_steps_return + 1:
             j = 0
+            n_step_reward = reward[i]
             while j < n_steps_return - 1:
                 if last[i + j]:
                     i += j + 1
                     break
                 j += 1
-                reward[i] += gamma ** j * reward[i + j]
+                n_step_reward = n_step_reward + gamma ** j * reward[i + j]
             else:
 
                 if self._full:
                     self.dataset.state[self._idx] = state[i]
                     self.dataset.action[self._idx] = action[i]
-                    self.dataset.reward[self._idx] = reward[i]
+                    self.dataset.reward[self._idx] = n_step_reward
 
                     self.dataset.next_state[self._idx] = next_state[i + j]
                     self.dataset.absorbing[self._idx] = absorbing[i + j]
@@ -344,7 +346,7 @@ class SumTree(Serializable):
 
                 else:
 
-                    sample = [state[i], action[i], reward[i], next_state[i + j], absorbing[i + j], last[i + j]]
+                    sample = [state[i], action[i], n_step_reward, next_state[i + j], absorbing[i + j], last[i + j]]
 
                     if self.dataset.is_stateful:
                         sample += [policy_state[i], policy_next_state[i+j]]
-- 
2.43.0


From f73ba5a14dda8f80c69a2777f3bc8084d755bc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:17 +0000
Subject: [PATCH 28/78] fix: replayed sequences do not join the newest and the
 oldest samples

---
 mushroom_rl/rl_utils/replay_memory.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/rl_utils/replay_memory.py b/mushroom_rl/rl_utils/replay_memory.py
index 44b0e98..5ce7332 100644
--- a/mushroom_rl/rl_utils/replay_memory.py
+++ b/mushroom_rl/rl_utils/replay_memory.py
@@ -224,6 +224,11 @@ class SequenceReplayMemory(ReplayMemory):
                 begin_seq = np.maximum(i - self._truncation_length + 1, 0)
                 end_seq = i + 1
 
+                # the oldest sample follows the newest one when the memory is full
+                at_oldest = self._full and begin_seq <= self._idx <= i
+                if at_oldest:
+                    begin_seq = self._idx
+
                 # the sequence can contain more than one trajectory, check to only include one
                 lasts_absorbing = self._dataset.last[begin_seq: i]
                 begin_traj = self._backend.where(lasts_absorbing > 0)
@@ -233,7 +238,7 @@ class SequenceReplayMemory(ReplayMemory):
                     begin_seq = begin_seq + begin_traj[0][-1] + 1
 
                 # determine prev action
-                if more_than_one_traj or begin_seq == 0 or self._dataset.last[begin_seq-1]:
+                if more_than_one_traj or at_oldest or begin_seq == 0 or self._dataset.last[begin_seq-1]:
                     prev_actions = self._dataset.action[begin_seq:end_seq - 1]
                     init_prev_action = self._backend.zeros(1, *self._action_space_shape)
                     if len(prev_actions) == 0:
-- 
2.43.0


From 133f2690aaf4b2edf40fa23b7f10a7b968ad5273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:17 +0000
Subject: [PATCH 29/78] fix: prioritized replay memory samples with probability
 proportional to the priority

---
 mushroom_rl/rl_utils/replay_memory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/rl_utils/replay_memory.py b/mushroom_rl/rl_utils/replay_memory.py
index 5ce7332..e8edc90 100644
--- a/mushroom_rl/rl_utils/replay_memory.py
+++ b/mushroom_rl/rl_utils/replay_memory.py
@@ -432,9 +432,10 @@ class SumTree(Serializable):
             return idx
 
         if self._tree[left] == self._tree[right]:
+            s = s if s <= self._tree[left] else s - self._tree[left]
             return self._retrieve(s, np.random.choice([left, right]))
 
-        if s <= self._tree[left]:
+        if self._tree[right] == 0 or 0 < self._tree[left] and s <= self._tree[left]:
             return self._retrieve(s, left)
         else:
             return self._retrieve(s - self._tree[left], right)
-- 
2.43.0


From 018e1ecc87ac8ed0244a01e27f18a7256df9ff11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:49 +0000
Subject: [PATCH 30/78] fix: environments do not share their state with the
 caller

---
 mushroom_rl/environments/car_on_hill.py       | 6 +++---
 mushroom_rl/environments/cart_pole.py         | 6 +++---
 mushroom_rl/environments/finite_mdp.py        | 6 +++---
 mushroom_rl/environments/grid_world.py        | 6 +++---
 mushroom_rl/environments/inverted_pendulum.py | 6 +++---
 mushroom_rl/environments/lqr.py               | 8 ++++----
 mushroom_rl/environments/puddle_world.py      | 6 +++---
 mushroom_rl/environments/segway.py            | 6 +++---
 mushroom_rl/environments/ship_steering.py     | 6 +++---
 9 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/mushroom_rl/environments/car_on_hill.py b/mushroom_rl/environments/car_on_hill.py
index ad0ab0d..d730cb6 100644
--- a/mushroom_rl/environments/car_on_hill.py
+++ b/mushroom_rl/environments/car_on_hill.py
@@ -44,9 +44,9 @@ class CarOnHill(Environment):
         if state is None:
             self._state = np.array([-0.5, 0])
         else:
-            self._state = state
+            self._state = np.array(state)
 
-        return self._state, {}
+        return self._state.copy(), {}
 
     def step(self, action):
         action = self._discrete_actions[action[0]]
@@ -65,7 +65,7 @@ class CarOnHill(Environment):
             reward = 0.
             absorbing = False
 
-        return self._state, reward, absorbing, {}
+        return self._state.copy(), reward, absorbing, {}
 
     def render(self, record=False):
         # Slope
diff --git a/mushroom_rl/environments/cart_pole.py b/mushroom_rl/environments/cart_pole.py
index 2111cdd..3f52168 100644
--- a/mushroom_rl/environments/cart_pole.py
+++ b/mushroom_rl/environments/cart_pole.py
@@ -59,11 +59,11 @@ class CartPole(Environment):
 
             self._state = np.array([angle, 0.])
         else:
-            self._state = state
+            self._state = np.array(state)
             self._state[0] = normalize_angle(self._state[0])
 
         self._last_u = 0
-        return self._state, {}
+        return self._state.copy(), {}
 
     def step(self, action):
         if action == 0:
@@ -88,7 +88,7 @@ class CartPole(Environment):
             reward = 0.
             absorbing = False
 
-        return self._state, reward, absorbing, {}
+        return self._state.copy(), reward, absorbing, {}
 
     def render(self, record=False):
         start = 1.25 * self._l * np.ones(2)
diff --git a/mushroom_rl/environments/finite_mdp.py b/mushroom_rl/environments/finite_mdp.py
index 7531c27..6f974cb 100644
--- a/mushroom_rl/environments/finite_mdp.py
+++ b/mushroom_rl/environments/finite_mdp.py
@@ -47,9 +47,9 @@ class FiniteMDP(Environment):
             else:
                 self._state = np.array([np.random.choice(self.p.shape[0])])
         else:
-            self._state = state
+            self._state = np.array(state)
 
-        return self._state, {}
+        return self._state.copy(), {}
 
     def step(self, action):
         p = self.p[self._state[0], action[0], :]
@@ -59,4 +59,4 @@ class FiniteMDP(Environment):
 
         self._state = next_state
 
-        return self._state, reward, absorbing, {}
+        return self._state.copy(), reward, absorbing, {}
diff --git a/mushroom_rl/environments/grid_world.py b/mushroom_rl/environments/grid_world.py
index 63b4bc1..23fc011 100644
--- a/mushroom_rl/environments/grid_world.py
+++ b/mushroom_rl/environments/grid_world.py
@@ -40,9 +40,9 @@ class AbstractGridWorld(Environment):
         if state is None:
             state = self.convert_to_int(self._start, self._width)
 
-        self._state = state
+        self._state = np.array(state)
 
-        return self._state, {}
+        return self._state.copy(), {}
 
     def step(self, action):
         state = self.convert_to_grid(self._state, self._width)
@@ -50,7 +50,7 @@ class AbstractGridWorld(Environment):
         new_state, reward, absorbing, info = self._step(state, action)
         self._state = self.convert_to_int(new_state, self._width)
 
-        return self._state, reward, absorbing, info
+        return self._state.copy(), reward, absorbing, info
 
     def render(self, record=False):
         for row in range(1, self._height):
diff --git a/mushroom_rl/environments/inverted_pendulum.py b/mushroom_rl/environments/inverted_pendulum.py
index df060d4..9097a33 100644
--- a/mushroom_rl/environments/inverted_pendulum.py
+++ b/mushroom_rl/environments/inverted_pendulum.py
@@ -63,12 +63,12 @@ class InvertedPendulum(Environment):
 
             self._state = np.array([angle, 0.])
         else:
-            self._state = state
+            self._state = np.array(state)
             self._state[0] = normalize_angle(self._state[0])
             self._state[1] = self._bound(self._state[1], -self._max_omega, self._max_omega)
 
         self._last_u = 0.0
-        return self._state, {}
+        return self._state.copy(), {}
 
     def step(self, action):
         u = self._bound(action[0], -self._max_u, self._max_u)
@@ -82,7 +82,7 @@ class InvertedPendulum(Environment):
 
         self._last_u = u.item()
 
-        return self._state, reward, False, {}
+        return self._state.copy(), reward, False, {}
 
     def render(self, record=False):
         start = 1.25 * self._l * np.ones(2)
diff --git a/mushroom_rl/environments/lqr.py b/mushroom_rl/environments/lqr.py
index 7213962..c640f68 100644
--- a/mushroom_rl/environments/lqr.py
+++ b/mushroom_rl/environments/lqr.py
@@ -117,14 +117,14 @@ class LQR(Environment):
                 rand_state = np.random.uniform(-3, 3, size=self.A.shape[0])
                 self._state = self._bound(rand_state, self.info.observation_space.low, self.info.observation_space.high)
             elif self._initial_state is not None:
-                self._state = self._initial_state
+                self._state = np.array(self._initial_state)
             else:
                 init_value = .9 * self._max_pos if np.isfinite(self._max_pos) else 10
                 self._state = init_value * np.ones(self.A.shape[0])
         else:
-            self._state = state
+            self._state = np.array(state)
 
-        return self._state, {}
+        return self._state.copy(), {}
 
     def step(self, action):
         x = self._state
@@ -143,4 +143,4 @@ class LQR(Environment):
                 self._state = self._bound(self._state, self.info.observation_space.low,
                                           self.info.observation_space.high)
 
-        return self._state, reward, absorbing, {}
+        return self._state.copy(), reward, absorbing, {}
diff --git a/mushroom_rl/environments/puddle_world.py b/mushroom_rl/environments/puddle_world.py
index 8305240..027a009 100644
--- a/mushroom_rl/environments/puddle_world.py
+++ b/mushroom_rl/environments/puddle_world.py
@@ -65,9 +65,9 @@ class PuddleWorld(Environment):
         if state is None:
             self._state = self._start.copy()
         else:
-            self._state = state
+            self._state = np.array(state)
 
-        return self._state, {}
+        return self._state.copy(), {}
 
     def step(self, action):
         idx = action[0]
@@ -84,7 +84,7 @@ class PuddleWorld(Environment):
 
         self._state = next_state
 
-        return next_state, reward, absorbing, {}
+        return next_state.copy(), reward, absorbing, {}
 
     def render(self, record=False):
         if self._pixels is None:
diff --git a/mushroom_rl/environments/segway.py b/mushroom_rl/environments/segway.py
index 5cb8965..03f0b11 100644
--- a/mushroom_rl/environments/segway.py
+++ b/mushroom_rl/environments/segway.py
@@ -61,12 +61,12 @@ class Segway(Environment):
 
             self._state = np.array([angle, 0., 0.])
         else:
-            self._state = state
+            self._state = np.array(state)
             self._state[0] = normalize_angle(self._state[0])
 
         self._last_x = 0
 
-        return self._state, {}
+        return self._state.copy(), {}
 
     def step(self, action):
         u = self._bound(action[0], -self._max_u, self._max_u)
@@ -88,7 +88,7 @@ class Segway(Environment):
 
             reward = -J
 
-        return self._state, reward, absorbing, {}
+        return self._state.copy(), reward, absorbing, {}
 
     def _dynamics(self, state, t, u):
 
diff --git a/mushroom_rl/environments/ship_steering.py b/mushroom_rl/environments/ship_steering.py
index c13a2d9..e06056c 100644
--- a/mushroom_rl/environments/ship_steering.py
+++ b/mushroom_rl/environments/ship_steering.py
@@ -65,9 +65,9 @@ class ShipSteering(Environment):
                 high = self.info.observation_space.high
                 self._state = (high-low)*np.random.rand(4) + low
         else:
-            self._state = state
+            self._state = np.array(state)
 
-        return self._state, {}
+        return self._state.copy(), {}
 
     def step(self, action):
 
@@ -101,7 +101,7 @@ class ShipSteering(Environment):
 
         self._state = new_state
 
-        return self._state, reward, absorbing, {}
+        return self._state.copy(), reward, absorbing, {}
 
     def render(self, record=False):
         self._viewer.line(self._gate_s, self._gate_e,
-- 
2.43.0


From 864757aeabd2da68ca55bf1b55914490b47986f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:09 +0000
Subject: [PATCH 31/78] fix: the observations of a Gym environment are not
 shared with the caller

---
 mushroom_rl/environments/gym_env.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/environments/gym_env.py b/mushroom_rl/environments/gym_env.py
index 191d8c8..c1b7267 100644
--- a/mushroom_rl/environments/gym_env.py
+++ b/mushroom_rl/environments/gym_env.py
@@ -81,18 +81,18 @@ class Gym(Environment):
 
     def reset(self, state=None):
         if state is None:
-            return np.atleast_1d(self.env.reset()), {}
+            return np.atleast_1d(self.env.reset()).copy(), {}
         else:
             self.env.reset()
             self.env.state = state
 
-            return np.atleast_1d(state), {}
+            return np.atleast_1d(state).copy(), {}
 
     def step(self, action):
         action = self._convert_action(action)
         obs, reward, absorbing, info = self.env.step(action)
 
-        return np.atleast_1d(obs), reward, absorbing, info
+        return np.atleast_1d(obs).copy(), reward, absorbing, info
 
     def render(self, record=False):
         if self._first or self._not_pybullet:
-- 
2.43.0


From 2e65750ccef968ba300e2f168665f6a51af184b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:09 +0000
Subject: [PATCH 32/78] fix: a Gym environment is reset to the given state

---
 mushroom_rl/environments/gym_env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/environments/gym_env.py b/mushroom_rl/environments/gym_env.py
index c1b7267..059a2b9 100644
--- a/mushroom_rl/environments/gym_env.py
+++ b/mushroom_rl/environments/gym_env.py
@@ -84,7 +84,7 @@ class Gym(Environment):
             return np.atleast_1d(self.env.reset()).copy(), {}
         else:
             self.env.reset()
-            self.env.state = state
+            self.env.unwrapped.state = np.array(state)
 
             return np.atleast_1d(state).copy(), {}
 
-- 
2.43.0


From f4b9cd0ffa6dee9aae8bd18b83461d10ff8c153b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:08 +0000
Subject: [PATCH 33/78] fix: the observations of a MuJoCo environment are not
 shared with the caller

---
 mushroom_rl/environments/mujoco.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/environments/mujoco.py b/mushroom_rl/environments/mujoco.py
index e76bec3..c601c6f 100644
--- a/mushroom_rl/environments/mujoco.py
+++ b/mushroom_rl/environments/mujoco.py
@@ -120,7 +120,7 @@ class MuJoCo(Environment):
         self.setup(obs)
 
         self._obs = self._create_observation(self.obs_helper._build_obs(self._model, self._data))
-        return self._modify_observation(self._obs), {}
+        return self._modify_observation(self._obs.copy()), {}
 
     def step(self, action):
         cur_obs = self._obs.copy()
@@ -157,7 +157,7 @@ class MuJoCo(Environment):
 
         self._obs = cur_obs
 
-        return self._modify_observation(cur_obs), reward, absorbing, info
+        return self._modify_observation(cur_obs.copy()), reward, absorbing, info
 
     def render(self, record=False):
         if self._viewer is None:
-- 
2.43.0


From f75f2e4c7707c2bcb4305bfaa71dcd6a3001385e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:14 +0000
Subject: [PATCH 34/78] fix: MultiMuJoCo resets return the information on the
 episode

---
 mushroom_rl/environments/mujoco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/environments/mujoco.py b/mushroom_rl/environments/mujoco.py
index c601c6f..af64d9f 100644
--- a/mushroom_rl/environments/mujoco.py
+++ b/mushroom_rl/environments/mujoco.py
@@ -688,7 +688,7 @@ class MultiMuJoCo(MuJoCo):
             self._viewer.load_new_model(self._model)
 
         self._obs = self._create_observation(self.obs_helper._build_obs(self._model, self._data))
-        return self._modify_observation(self._obs)
+        return self._modify_observation(self._obs.copy()), {}
 
     @property
     def more_than_one_env(self):
-- 
2.43.0


From cb1d7228498994f73879f6eede29f001ee1d20f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:05 +0000
Subject: [PATCH 35/78] fix: setting weights or parameters copies them

---
 mushroom_rl/approximators/parametric/linear.py  |  2 +-
 mushroom_rl/distributions/gaussian.py           | 10 +++++-----
 mushroom_rl/distributions/torch_distribution.py |  6 +++---
 mushroom_rl/policy/gaussian_policy.py           |  2 +-
 mushroom_rl/policy/torch_policy.py              |  2 +-
 mushroom_rl/utils/torch.py                      |  2 +-
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/mushroom_rl/approximators/parametric/linear.py b/mushroom_rl/approximators/parametric/linear.py
index 55c4b0f..af50f42 100644
--- a/mushroom_rl/approximators/parametric/linear.py
+++ b/mushroom_rl/approximators/parametric/linear.py
@@ -100,7 +100,7 @@ class LinearApproximator(Serializable):
             w (np.ndarray): the set of weights to set.
 
         """
-        self._w = w.reshape(self._w.shape)
+        self._w = w.reshape(self._w.shape).copy()
 
     def phi(self, x):
         if self._phi is not None:
diff --git a/mushroom_rl/distributions/gaussian.py b/mushroom_rl/distributions/gaussian.py
index 8a278fb..f745976 100644
--- a/mushroom_rl/distributions/gaussian.py
+++ b/mushroom_rl/distributions/gaussian.py
@@ -77,10 +77,10 @@ class GaussianDistribution(Distribution):
         return g
 
     def get_parameters(self):
-        return self._mu
+        return self._mu.copy()
 
     def set_parameters(self, rho):
-        self._mu = rho
+        self._mu = rho.copy()
 
     @property
     def parameters_size(self):
@@ -229,8 +229,8 @@ class GaussianDiagonalDistribution(Distribution):
 
     def set_parameters(self, rho):
         n_dims = len(self._mu)
-        self._mu = rho[:n_dims]
-        self._std = rho[n_dims:]
+        self._mu = rho[:n_dims].copy()
+        self._std = rho[n_dims:].copy()
 
     @property
     def parameters_size(self):
@@ -397,7 +397,7 @@ class GaussianCholeskyDistribution(Distribution):
 
     def set_parameters(self, rho):
         n_dims = len(self._mu)
-        self._mu = rho[:n_dims]
+        self._mu = rho[:n_dims].copy()
         self._chol_sigma[np.tril_indices(n_dims)] = rho[n_dims:]
 
     @property
diff --git a/mushroom_rl/distributions/torch_distribution.py b/mushroom_rl/distributions/torch_distribution.py
index ef099fa..915d794 100644
--- a/mushroom_rl/distributions/torch_distribution.py
+++ b/mushroom_rl/distributions/torch_distribution.py
@@ -83,8 +83,8 @@ class DiagonalGaussianTorchDistribution(AbstractGaussianTorchDistribution):
 
     def set_parameters(self, rho):
         n_dims = len(self._mu)
-        self._mu.data = rho[:n_dims]
-        self._log_sigma.data = rho[n_dims:]
+        self._mu.data = rho[:n_dims].clone()
+        self._log_sigma.data = rho[n_dims:].clone()
 
     @property
     def parameters_size(self):
@@ -124,7 +124,7 @@ class CholeskyGaussianTorchDistribution(AbstractGaussianTorchDistribution):
     def set_parameters(self, rho):
         n_dims = len(self._mu)
         tril_indices = torch.tril_indices(row=n_dims, col=n_dims)
-        self._mu.data = rho[:n_dims]
+        self._mu.data = rho[:n_dims].clone()
         self._chol_sigma.data[tril_indices[0], tril_indices[1]] = rho[n_dims:]
 
     @property
diff --git a/mushroom_rl/policy/gaussian_policy.py b/mushroom_rl/policy/gaussian_policy.py
index f92f4d9..eb88734 100644
--- a/mushroom_rl/policy/gaussian_policy.py
+++ b/mushroom_rl/policy/gaussian_policy.py
@@ -166,7 +166,7 @@ class DiagonalGaussianPolicy(AbstractGaussianPolicy):
     def set_weights(self, weights):
         self._approximator.set_weights(
             weights[0:self._approximator.weights_size])
-        self._std = weights[self._approximator.weights_size:]
+        self._std = weights[self._approximator.weights_size:].copy()
 
     def get_weights(self):
         return np.concatenate((self._approximator.get_weights(), self._std),
diff --git a/mushroom_rl/policy/torch_policy.py b/mushroom_rl/policy/torch_policy.py
index 89e043a..5423a86 100644
--- a/mushroom_rl/policy/torch_policy.py
+++ b/mushroom_rl/policy/torch_policy.py
@@ -223,7 +223,7 @@ class GaussianTorchPolicy(TorchPolicy):
 
     def set_weights(self, weights):
         log_sigma_data = TorchUtils.to_float_tensor(weights[-self._action_dim:])
-        self._log_sigma.data = log_sigma_data
+        self._log_sigma.data = log_sigma_data.clone()
 
         self._mu.set_weights(weights[:-self._action_dim])
 
diff --git a/mushroom_rl/utils/torch.py b/mushroom_rl/utils/torch.py
index b0b01b8..1c5a53e 100644
--- a/mushroom_rl/utils/torch.py
+++ b/mushroom_rl/utils/torch.py
@@ -38,7 +38,7 @@ class TorchUtils(object):
 
             w_tensor = torch.as_tensor(w, device=cls.get_device(device)).type(p.data.dtype)
 
-            p.data = w_tensor
+            p.data = w_tensor.clone()
             idx += c
 
         # assert idx == weights.size # TODO check if you can put another guard here
-- 
2.43.0


From 04150a0ac6af467b213828d7c5d0a58335fc9d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:42 +0000
Subject: [PATCH 36/78] fix: optimizers do not change the gradient of the
 caller

---
 mushroom_rl/rl_utils/optimizers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/rl_utils/optimizers.py b/mushroom_rl/rl_utils/optimizers.py
index 47335f0..9dd2d96 100644
--- a/mushroom_rl/rl_utils/optimizers.py
+++ b/mushroom_rl/rl_utils/optimizers.py
@@ -75,7 +75,7 @@ class AdaptiveOptimizer(Optimizer):
             grads = args[1]
         lr = self.get_value(*args, **kwargs)
         if not self._maximize:
-            grads *= -1
+            grads = -grads
         return params + lr * grads
 
     def get_value(self, *args, **kwargs):
@@ -114,7 +114,7 @@ class SGDOptimizer(Optimizer):
 
     def __call__(self, params, grads):
         if not self._maximize:
-            grads *= -1
+            grads = -grads
         return params + self._lr() * grads
 
 
@@ -153,7 +153,7 @@ class AdamOptimizer(Optimizer):
 
     def __call__(self, params, grads):
         if not self._maximize:
-            grads *= -1
+            grads = -grads
 
         if self._m is None:
             self._t = 0
-- 
2.43.0


From 9f4fe40ec1216132b94625c7f4a1482070eddda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:20 +0000
Subject: [PATCH 37/78] fix: a list with one tensor can be converted to torch

---
 mushroom_rl/core/array_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/core/array_backend.py b/mushroom_rl/core/array_backend.py
index 706357c..900bab2 100644
--- a/mushroom_rl/core/array_backend.py
+++ b/mushroom_rl/core/array_backend.py
@@ -396,7 +396,7 @@ class TorchBackend(ArrayBackend):
 
     @staticmethod
     def from_list(array):
-        if len(array) > 1 and isinstance(array[0], torch.Tensor):
+        if len(array) > 0 and isinstance(array[0], torch.Tensor):
             return torch.stack(array)
         else:
             return torch.tensor(array)
-- 
2.43.0


From a409765f312d7b67a669cdf4ea524c2b41572266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:20 +0000
Subject: [PATCH 38/78] fix: the running window does not share its values with
 the caller

---
 mushroom_rl/rl_utils/running_stats.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/rl_utils/running_stats.py b/mushroom_rl/rl_utils/running_stats.py
index 3df64cd..a05fdce 100644
--- a/mushroom_rl/rl_utils/running_stats.py
+++ b/mushroom_rl/rl_utils/running_stats.py
@@ -190,7 +190,8 @@ class RunningAveragedWindow(Serializable):
             self._avg_buffer = deque(self._array_backend.zeros(1, *self._shape),
                                      maxlen=self._window_size)
         else:
-            self._avg_buffer = deque([self._array_backend.convert(init_value)], maxlen=self._window_size)
+            self._avg_buffer = deque([self._array_backend.copy(self._array_backend.convert(init_value))],
+                                     maxlen=self._window_size)
 
     def update_stats(self, value):
         """
@@ -203,7 +204,7 @@ class RunningAveragedWindow(Serializable):
         value = self._array_backend.atleast_2d(value)
         batch_size = len(value)
         for i in range(batch_size):
-            self._avg_buffer.append(value[i])
+            self._avg_buffer.append(self._array_backend.copy(value[i]))
 
     @property
     def mean(self):
@@ -212,4 +213,4 @@ class RunningAveragedWindow(Serializable):
             The estimated mean value.
 
         """
-        return self._array_backend.convert(self._avg_buffer).mean(0)
+        return self._array_backend.from_list(list(self._avg_buffer)).mean(0)
-- 
2.43.0


From 2afdf2c5e53d00c0318868e1071e5971100d8abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:20 +0000
Subject: [PATCH 39/78] fix: the min-max preprocessor supports torch and any
 number of bounded observations

---
 mushroom_rl/rl_utils/preprocessors.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/mushroom_rl/rl_utils/preprocessors.py b/mushroom_rl/rl_utils/preprocessors.py
index 921b2e4..49d64a6 100644
--- a/mushroom_rl/rl_utils/preprocessors.py
+++ b/mushroom_rl/rl_utils/preprocessors.py
@@ -101,18 +101,18 @@ class MinMaxPreprocessor(StandardizationPreprocessor):
         """
         super(MinMaxPreprocessor, self).__init__(mdp_info, backend, clip_obs, alpha)
 
-        obs_low, obs_high = (self._array_backend.convert(mdp_info.observation_space.low.copy(),
-                                                         mdp_info.observation_space.high.copy()))
+        obs_low, obs_high = (self._array_backend.convert(mdp_info.observation_space.low,
+                                                         mdp_info.observation_space.high))
 
         self._obs_mask = self._array_backend.where((self._array_backend.abs(obs_low) < 1e20) &
                                                    (self._array_backend.abs(obs_high) < 1e20))
 
         self._obs_mask = self._array_backend.concatenate(self._obs_mask)
 
-        assert self._obs_mask.sum() > 0, "All observations have unlimited/extremely large range, " \
+        assert len(self._obs_mask) > 0, "All observations have unlimited/extremely large range, " \
                                          "you should use StandardizationPreprocessor instead."
 
-        self._run_norm_obs = len(self._array_backend.squeeze(self._obs_mask)) != obs_low.shape[0]
+        self._run_norm_obs = len(self._obs_mask) != obs_low.shape[0]
 
         self._obs_mean = self._array_backend.zeros_like(obs_low)
         self._obs_delta = self._array_backend.ones_like(obs_low)
@@ -122,9 +122,9 @@ class MinMaxPreprocessor(StandardizationPreprocessor):
         self._add_save_attr(
             _array_backend='pickle',
             _run_norm_obs='primitive',
-            _obs_mask='numpy',
-            _obs_mean='numpy',
-            _obs_delta='numpy'
+            _obs_mask=backend,
+            _obs_mean=backend,
+            _obs_delta=backend
         )
 
     def __call__(self, obs):
@@ -132,6 +132,8 @@ class MinMaxPreprocessor(StandardizationPreprocessor):
 
         if self._run_norm_obs:
             obs = super(MinMaxPreprocessor, self).__call__(obs)
+        else:
+            obs = self._array_backend.copy(obs)
 
         obs[self._obs_mask] = \
             ((orig_obs - self._obs_mean) / self._obs_delta)[self._obs_mask]
-- 
2.43.0


From 0ad22fae17f731efaa5fa14aadfbf9f1d28e4949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:28 +0000
Subject: [PATCH 40/78] fix: the min-max preprocessor supports observation
 bounds of any type

---
 mushroom_rl/rl_utils/preprocessors.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/mushroom_rl/rl_utils/preprocessors.py b/mushroom_rl/rl_utils/preprocessors.py
index 49d64a6..de001fe 100644
--- a/mushroom_rl/rl_utils/preprocessors.py
+++ b/mushroom_rl/rl_utils/preprocessors.py
@@ -101,8 +101,11 @@ class MinMaxPreprocessor(StandardizationPreprocessor):
         """
         super(MinMaxPreprocessor, self).__init__(mdp_info, backend, clip_obs, alpha)
 
-        obs_low, obs_high = (self._array_backend.convert(mdp_info.observation_space.low,
-                                                         mdp_info.observation_space.high))
+        low, high = self._array_backend.convert(mdp_info.observation_space.low, mdp_info.observation_space.high)
+
+        # use the default floating point type of the backend
+        obs_low, obs_high = self._array_backend.zeros_like(low), self._array_backend.zeros_like(high)
+        obs_low[:], obs_high[:] = low, high
 
         self._obs_mask = self._array_backend.where((self._array_backend.abs(obs_low) < 1e20) &
                                                    (self._array_backend.abs(obs_high) < 1e20))
@@ -128,14 +131,11 @@ class MinMaxPreprocessor(StandardizationPreprocessor):
         )
 
     def __call__(self, obs):
-        orig_obs = self._array_backend.copy(obs)
+        norm_obs = (obs - self._obs_mean) / self._obs_delta
 
         if self._run_norm_obs:
-            obs = super(MinMaxPreprocessor, self).__call__(obs)
-        else:
-            obs = self._array_backend.copy(obs)
-
-        obs[self._obs_mask] = \
-            ((orig_obs - self._obs_mean) / self._obs_delta)[self._obs_mask]
+            bounded_obs = norm_obs[self._obs_mask]
+            norm_obs = super(MinMaxPreprocessor, self).__call__(obs)
+            norm_obs[self._obs_mask] = bounded_obs
 
-        return obs
+        return norm_obs
-- 
2.43.0


From 1e81d7d997e1cfef3be49c203f8623c75cd80552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:28 +0000
Subject: [PATCH 41/78] fix: the size of variance-dependent parameters is not
 taken as their maximum value

---
 mushroom_rl/rl_utils/variance_parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/rl_utils/variance_parameters.py b/mushroom_rl/rl_utils/variance_parameters.py
index d1186c1..347ee03 100644
--- a/mushroom_rl/rl_utils/variance_parameters.py
+++ b/mushroom_rl/rl_utils/variance_parameters.py
@@ -27,7 +27,7 @@ class VarianceParameter(Parameter):
         self._x2 = Table(size)
         self._parameter_value = Table(size)
 
-        super().__init__(value, min_value, size)
+        super().__init__(value, min_value, size=size)
 
         self._add_save_attr(
             _exponential='primitive',
@@ -142,7 +142,7 @@ class WindowedVarianceParameter(Parameter):
             _parameter_value='mushroom',
         )
 
-        super(WindowedVarianceParameter, self).__init__(value, min_value, size)
+        super(WindowedVarianceParameter, self).__init__(value, min_value, size=size)
 
     def _compute(self, *idx, **kwargs):
         return self._parameter_value[idx]
-- 
2.43.0


From 0a99a692a2e978cfd290889eb7359ef123ea7db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:51 +0000
Subject: [PATCH 42/78] fix: a single windowed variance-dependent parameter
 keeps its window of samples

---
 mushroom_rl/rl_utils/variance_parameters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mushroom_rl/rl_utils/variance_parameters.py b/mushroom_rl/rl_utils/variance_parameters.py
index 347ee03..c3a9878 100644
--- a/mushroom_rl/rl_utils/variance_parameters.py
+++ b/mushroom_rl/rl_utils/variance_parameters.py
@@ -162,6 +162,10 @@ class WindowedVarianceParameter(Parameter):
         x = kwargs['target']
         factor = kwargs.get('factor', 1.)
 
+        # a single parameter is not indexed, its window is
+        if self._n_updates.table.size == 1:
+            idx = (0,) * self._n_updates.table.ndim
+
         # compute parameter value
         n = self._n_updates[idx]
         self._n_updates[idx] += 1
-- 
2.43.0


From 4c9c76323e6bc6b062e5bae6167719adfcb3d6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:18 +0000
Subject: [PATCH 43/78] fix: the variance-decreasing parameter is one half when
 the variance is the tolerance

---
 mushroom_rl/rl_utils/variance_parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/rl_utils/variance_parameters.py b/mushroom_rl/rl_utils/variance_parameters.py
index c3a9878..fc56097 100644
--- a/mushroom_rl/rl_utils/variance_parameters.py
+++ b/mushroom_rl/rl_utils/variance_parameters.py
@@ -104,7 +104,7 @@ class VarianceDecreasingParameter(VarianceParameter):
         if self._exponential:
             return np.exp(sigma * np.log(.5) / self._tol)
         else:
-            return 1. / (sigma + self._tol)
+            return self._tol / (sigma + self._tol)
 
 
 class WindowedVarianceParameter(Parameter):
-- 
2.43.0


From 7cc2b44c3a44904ea0f52192cb6d02afe645f736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:02 +0000
Subject: [PATCH 44/78] fix: the first sequences of a PPO_BPTT dataset contain
 one trajectory only

---
 .../algorithms/actor_critic/deep_actor_critic/ppo_bptt.py    | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
index 42deb72..7f986f6 100644
--- a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
+++ b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
@@ -112,11 +112,12 @@ class PPO_BPTT(OnPolicyDeepAC):
                 end_seq = i + 1
 
                 # the sequence may contain more than one trajectory, we need to cut it so that it contains only one
-                lasts_absorbing = last[begin_seq - 1: i].int() + absorbing[begin_seq - 1: i].int()
+                begin_check = max(begin_seq - 1, 0)
+                lasts_absorbing = last[begin_check: i].int() + absorbing[begin_check: i].int()
                 begin_traj = torch.where(lasts_absorbing > 0)
                 sequence_is_shorter_than_requested = len(*begin_traj) > 0
                 if sequence_is_shorter_than_requested:
-                    begin_seq = begin_seq + begin_traj[0][-1]
+                    begin_seq = begin_check + begin_traj[0][-1] + 1
 
                 # get the sequences
                 states_old_seq = states_old[begin_seq:end_seq]
-- 
2.43.0


From b5f207eabcf8b13e739b029873bcb97803e16430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:27 +0000
Subject: [PATCH 45/78] fix: concatenating to an empty dataset does not change
 the end of the other dataset

---
 mushroom_rl/core/_impl/numpy_dataset.py | 3 ++-
 mushroom_rl/core/_impl/torch_dataset.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/core/_impl/numpy_dataset.py b/mushroom_rl/core/_impl/numpy_dataset.py
index 8399610..8e4a73a 100644
--- a/mushroom_rl/core/_impl/numpy_dataset.py
+++ b/mushroom_rl/core/_impl/numpy_dataset.py
@@ -209,7 +209,8 @@ class NumpyDataset(Serializable):
         result._next_states = np.concatenate((self.next_state, other.next_state))
         result._absorbing = np.concatenate((self.absorbing, other.absorbing))
         result._last = np.concatenate((self.last, other.last))
-        result._last[len(self)-1] = True
+        if len(self) > 0:
+            result._last[len(self)-1] = True
         result._len = len(self) + len(other)
 
         if self.is_stateful:
diff --git a/mushroom_rl/core/_impl/torch_dataset.py b/mushroom_rl/core/_impl/torch_dataset.py
index 87da2b9..35d57e1 100644
--- a/mushroom_rl/core/_impl/torch_dataset.py
+++ b/mushroom_rl/core/_impl/torch_dataset.py
@@ -209,7 +209,8 @@ class TorchDataset(Serializable):
         result._next_states = torch.concatenate((self.next_state, other.next_state))
         result._absorbing = torch.concatenate((self.absorbing, other.absorbing))
         result._last = torch.concatenate((self.last, other.last))
-        result._last[len(self) - 1] = True
+        if len(self) > 0:
+            result._last[len(self) - 1] = True
         result._len = len(self) + len(other)
 
         if self.is_stateful:
-- 
2.43.0


From 443cdb4bf9da44dc8eff41cacbdf5591f3ad5679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:27 +0000
Subject: [PATCH 46/78] fix: negative indices of a dataset count from its last
 transition

---
 mushroom_rl/core/dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/core/dataset.py b/mushroom_rl/core/dataset.py
index 17fb84e..1fa1587 100644
--- a/mushroom_rl/core/dataset.py
+++ b/mushroom_rl/core/dataset.py
@@ -270,8 +270,8 @@ class Dataset(Serializable):
     def __getitem__(self, index):
         if isinstance(index, (slice, np.ndarray)) or isinstance(index, (slice, torch.Tensor)):
             return self.get_view(index)
-        elif isinstance(index, int) and index < len(self._data):
-            return self._data[index]
+        elif isinstance(index, int) and -len(self) <= index < len(self):
+            return self._data[index if index >= 0 else index + len(self)]
         else:
             raise IndexError
 
-- 
2.43.0


From 635bdf02cb2f61a41c4f388df9dc0cd47248c518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:27 +0000
Subject: [PATCH 47/78] fix: views of a dataset can be concatenated

---
 mushroom_rl/core/dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mushroom_rl/core/dataset.py b/mushroom_rl/core/dataset.py
index 1fa1587..bfe2389 100644
--- a/mushroom_rl/core/dataset.py
+++ b/mushroom_rl/core/dataset.py
@@ -260,6 +260,7 @@ class Dataset(Serializable):
         dataset._info = self._info.get_view(index, copy)
         dataset._episode_info = self._episode_info.get_view(index, copy)
         dataset._data = self._data.get_view(index, copy)
+        dataset._theta_list = list()
 
         return dataset
 
-- 
2.43.0


From 1357b009d2dc52a082d7203e28da38ee5277af54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:27 +0000
Subject: [PATCH 48/78] fix: views, concatenations and policy states of list
 datasets

---
 mushroom_rl/core/_impl/list_dataset.py | 39 +++++++++++++++-----------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/mushroom_rl/core/_impl/list_dataset.py b/mushroom_rl/core/_impl/list_dataset.py
index 6bf9d9a..42ce486 100644
--- a/mushroom_rl/core/_impl/list_dataset.py
+++ b/mushroom_rl/core/_impl/list_dataset.py
@@ -51,7 +51,7 @@ class ListDataset(Serializable):
             for s, a, r, ss, ab, last, ps, pss in zip(states, actions, rewards, next_states,
                                                       absorbings.astype(bool), lasts.astype(bool),
                                                       policy_states, policy_next_states):
-                dataset.append(s, a, r.item(), ss, ab.item(), last.item(), ps.item(), pss.item())
+                dataset.append(s, a, r.item(), ss, ab.item(), last.item(), ps, pss)
         else:
             for s, a, r, ss, ab, last in zip(states, actions, rewards, next_states,
                                              absorbings.astype(bool), lasts.astype(bool)):
@@ -73,23 +73,22 @@ class ListDataset(Serializable):
 
     def clear(self):
         self._dataset = list()
+        self._policy_dataset = list()
+
+        if self._mask is not None:
+            self._mask = list()
 
     def get_view(self, index, copy=False):
         view = self.create_new_instance(self)
 
-        if isinstance(index, (int, slice)):
-            view._dataset = self._dataset[index]
-        else:
-            view._dataset = [self._dataset[i] for i in index]
+        view._dataset = self._select(self._dataset, index)
+        view._policy_dataset = self._select(self._policy_dataset, index) if self._is_stateful else list()
 
         if self._mask is not None:
-            if isinstance(index, (int, slice)):
-                view._mask = self._mask[index, ...]
-            else:
-                view._mask = [self._mask[i] for i in index]
+            view._mask = self._select(self._mask, index)
 
         if copy:
-            return view.copy()
+            return deepcopy(view)
         else:
             return view
 
@@ -98,10 +97,9 @@ class ListDataset(Serializable):
 
     def __add__(self, other):
         result = self.create_new_instance(self)
-        last_step = self._dataset[-1]
-        modified_last_step = last_step[:-1] + (True,)
-        result._dataset[-1] = modified_last_step
         result._dataset = self._dataset + other._dataset
+        if len(self) > 0:
+            result._dataset[len(self) - 1] = self._dataset[-1][:-1] + (True,)
         result._policy_dataset = self._policy_dataset + other._policy_dataset
 
         return result
@@ -132,11 +130,11 @@ class ListDataset(Serializable):
 
     @property
     def policy_state(self):
-        return [step[6] for step in self._dataset]
+        return [step[0] for step in self._policy_dataset]
 
     @property
     def policy_next_state(self):
-        return [step[7] for step in self._dataset]
+        return [step[1] for step in self._policy_dataset]
 
     @property
     def is_stateful(self):
@@ -154,13 +152,20 @@ class ListDataset(Serializable):
     def n_episodes(self):
         n_episodes = 0
         for sample in self._dataset:
-            if sample[5] is True:
+            if sample[5]:
                 n_episodes += 1
-        if self._dataset[-1][5] is not True:
+        if not self._dataset[-1][5]:
             n_episodes += 1
 
         return n_episodes
 
+    @staticmethod
+    def _select(data, index):
+        if isinstance(index, slice):
+            return data[index]
+        else:
+            return [data[i] for i in index]
+
     def _add_all_save_attr(self):
         self._add_save_attr(
             _dataset='pickle',
-- 
2.43.0


From 19bb5cfb387491cfedfcc6db506bc278b0efc795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:32 +0000
Subject: [PATCH 49/78] fix: extra information can be extended after it was
 parsed to another backend or with new keys

---
 mushroom_rl/core/extra_info.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/core/extra_info.py b/mushroom_rl/core/extra_info.py
index dfe038e..4dece0e 100644
--- a/mushroom_rl/core/extra_info.py
+++ b/mushroom_rl/core/extra_info.py
@@ -1,5 +1,9 @@
 from collections import UserDict
 import numbers
+
+import numpy as np
+import torch
+
 from .array_backend import ArrayBackend
 from mushroom_rl.core.serialization import Serializable
 
@@ -78,7 +82,7 @@ class ExtraInfo(Serializable, UserDict):
         if self._structured_storage:
             for key in output:
                 index = length_structured_storage
-                value = self._convert(self._structured_storage[key], to)
+                value = self._convert(self._structured_storage.get(key), to)
                 output[key][:index] = value
         
         #fill output with elements stored in storage
@@ -362,6 +366,9 @@ class ExtraInfo(Serializable, UserDict):
         if value is None:
             return ArrayBackend.get_array_backend(to).none()
         
+        if isinstance(value, (np.ndarray, torch.Tensor)):
+            return ArrayBackend.convert(value, to=to)
+
         return ArrayBackend.convert(value, to=to, backend=self._array_backend)
 
     def _create_key(self, key_path):
-- 
2.43.0


From ad50b2d2e4590d144ac8f6ac2523e9bf9f43c220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:32 +0000
Subject: [PATCH 50/78] fix: joined extra information stays in the order of the
 steps

---
 mushroom_rl/core/extra_info.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mushroom_rl/core/extra_info.py b/mushroom_rl/core/extra_info.py
index 4dece0e..7446e31 100644
--- a/mushroom_rl/core/extra_info.py
+++ b/mushroom_rl/core/extra_info.py
@@ -139,6 +139,10 @@ class ExtraInfo(Serializable, UserDict):
         """
         assert(self._n_envs == other.n_envs)
 
+        if self._structured_storage or other._structured_storage:
+            self.parse()
+            other.parse()
+
         info = ExtraInfo(self._n_envs, self._array_backend.get_backend_name(), self._device)
         info._storage = self._storage + other._storage
 
-- 
2.43.0


From 643ebf9c1ab9478bbbc4faaf671d4223191d0594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:47 +0000
Subject: [PATCH 51/78] fix: extra information parsed to numpy can be indexed
 with one-element tensors

---
 mushroom_rl/core/extra_info.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mushroom_rl/core/extra_info.py b/mushroom_rl/core/extra_info.py
index 7446e31..e439aee 100644
--- a/mushroom_rl/core/extra_info.py
+++ b/mushroom_rl/core/extra_info.py
@@ -232,6 +232,10 @@ class ExtraInfo(Serializable, UserDict):
             copy (bool): wether content of ExtraInfo object should be copied
         """
         self.parse()
+
+        if isinstance(index, torch.Tensor) and self._array_backend.get_backend_name() == 'numpy':
+            index = index.cpu().numpy()
+
         info = ExtraInfo(self._n_envs, self._array_backend.get_backend_name(), self._device)
         info._key_mapping = self._key_mapping
         info._shape_mapping = self._shape_mapping
-- 
2.43.0


From 90fdd10d3229d3e9413ab22136e7844ffa243124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:01 +0000
Subject: [PATCH 52/78] fix: black box optimization samples the parameters of
 each parallel environment

---
 .../black_box_optimization.py                 | 33 +++++++------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/mushroom_rl/algorithms/policy_search/black_box_optimization/black_box_optimization.py b/mushroom_rl/algorithms/policy_search/black_box_optimization/black_box_optimization.py
index f7d0daa..4ec037e 100644
--- a/mushroom_rl/algorithms/policy_search/black_box_optimization/black_box_optimization.py
+++ b/mushroom_rl/algorithms/policy_search/black_box_optimization/black_box_optimization.py
@@ -43,12 +43,7 @@ class BlackBoxOptimization(Agent):
         if isinstance(self.policy, VectorPolicy):
             self.policy = self.policy.get_flat_policy()
 
-        context = self._context_builder(initial_state, **episode_info)
-
-        if self._deterministic:
-            theta = self.distribution.mean(context)
-        else:
-            theta = self.distribution.sample(context)
+        theta = self._draw_theta(initial_state, episode_info)
         self.policy.set_weights(theta)
 
         policy_state, _ = super().episode_start(initial_state, episode_info)
@@ -64,21 +59,12 @@ class BlackBoxOptimization(Agent):
 
         theta = self.policy.get_weights()
         if start_mask.any():
-            context = self._context_builder(initial_states, **episode_info)[start_mask]
-
-            if self._deterministic:
-                if context is not None:
-                    theta[start_mask] = self.distribution.mean(context[start_mask])
-                else:
-                    theta[start_mask] = self._agent_backend.from_list(
-                        [self.distribution.mean() for _ in range(start_mask.sum())])
-            else:
-                if context is not None:
-                    theta[start_mask] = self._agent_backend.from_list(
-                        [self.distribution.sample(context[i]) for i in range(start_mask.sum())])  # TODO change it
-                else:
-                    theta[start_mask] = self._agent_backend.from_list(
-                        [self.distribution.sample() for _ in range(start_mask.sum())])
+            if not isinstance(episode_info, list):
+                episode_info = [{key: value[i] for key, value in episode_info.items()} for i in range(n_envs)]
+
+            for i in range(n_envs):
+                if start_mask[i]:
+                    theta[i] = self._draw_theta(initial_states[i], episode_info[i])
             self.policy.set_weights(theta)
 
         policy_states = self.policy.reset()
@@ -99,6 +85,11 @@ class BlackBoxOptimization(Agent):
 
         self._update(Jep, theta, context)
 
+    def _draw_theta(self, initial_state, episode_info):
+        context = self._context_builder(initial_state, **episode_info)
+
+        return self.distribution.mean(context) if self._deterministic else self.distribution.sample(context)
+
     def set_deterministic(self, deterministic=True):
         self._deterministic = deterministic
 
-- 
2.43.0


From 1df34b32276aa070fba97816810ff91168f71d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:24 +0000
Subject: [PATCH 53/78] fix: the number of environments of a vector policy can
 be changed

---
 mushroom_rl/policy/vector_policy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/policy/vector_policy.py b/mushroom_rl/policy/vector_policy.py
index ac2ec1d..7215137 100644
--- a/mushroom_rl/policy/vector_policy.py
+++ b/mushroom_rl/policy/vector_policy.py
@@ -35,11 +35,11 @@ class VectorPolicy(ParametricPolicy):
         return np.array(actions), None if len(policy_next_states) == 0 else np.array(policy_next_state)
 
     def set_n(self, n_envs):
-        if len(self) < n_envs:
-            self._policy_vector = self._policy_vector[:n_envs]
         if len(self) > n_envs:
+            self._policy_vector = self._policy_vector[:n_envs]
+        if len(self) < n_envs:
             n_missing = n_envs - len(self)
-            self._policy_vector += [self._policy_vector[0] for _ in range(n_missing)]
+            self._policy_vector += [deepcopy(self._policy_vector[0]) for _ in range(n_missing)]
 
     def get_flat_policy(self):
         return self._policy_vector[0]
-- 
2.43.0


From 29d7156a9a6fd57609543b8d753e7f0a47c555cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:24 +0000
Subject: [PATCH 54/78] fix: the policy states of a vector policy are those of
 its policies

---
 mushroom_rl/policy/vector_policy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/policy/vector_policy.py b/mushroom_rl/policy/vector_policy.py
index 7215137..c37c0b9 100644
--- a/mushroom_rl/policy/vector_policy.py
+++ b/mushroom_rl/policy/vector_policy.py
@@ -30,9 +30,9 @@ class VectorPolicy(ParametricPolicy):
             actions.append(action)
 
             if policy_next_state is not None:
-                policy_next_state.append(policy_next_state)
+                policy_next_states.append(policy_next_state)
 
-        return np.array(actions), None if len(policy_next_states) == 0 else np.array(policy_next_state)
+        return np.array(actions), None if len(policy_next_states) == 0 else np.array(policy_next_states)
 
     def set_n(self, n_envs):
         if len(self) > n_envs:
-- 
2.43.0


From 3b692a14c41f5958d6a399e3b2a35dd56adef082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:41 +0000
Subject: [PATCH 55/78] fix: the frames of parallel environments are those of
 their environment

The rendered frames were packed, while the core takes them by environment: when some environments were not running,
the frames went to the recorder of another environment or the run failed.
---
 mushroom_rl/core/multiprocess_environment.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mushroom_rl/core/multiprocess_environment.py b/mushroom_rl/core/multiprocess_environment.py
index c0289a4..0abb384 100644
--- a/mushroom_rl/core/multiprocess_environment.py
+++ b/mushroom_rl/core/multiprocess_environment.py
@@ -140,14 +140,13 @@ class MultiprocessEnvironment(VectorizedEnvironment):
             if env_mask[i]:
                 remote.send(('render', record))
 
-        frames = list()
+        frames = [None] * self.number
 
         for i, remote in enumerate(self._remotes):
             if env_mask[i]:
-                frame = remote.recv()
-                frames.append(frame)
+                frames[i] = remote.recv()
 
-        return np.array(frames)
+        return frames
 
     def seed(self, seed):
         for remote in self._remotes:
-- 
2.43.0


From 223f87ba5ae48ad7408c47cd786f8e77f54b286a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:41 +0000
Subject: [PATCH 56/78] fix: a recorder that saw no frame can be stopped

Recording fewer episodes than parallel environments failed at the end of the run.
---
 mushroom_rl/utils/record.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/utils/record.py b/mushroom_rl/utils/record.py
index 2ffa000..3bbc494 100644
--- a/mushroom_rl/utils/record.py
+++ b/mushroom_rl/utils/record.py
@@ -64,6 +64,8 @@ class VideoRecorder(object):
 
     def stop(self):
         cv2.destroyAllWindows()
-        self._video_writer.release()
-        self._video_writer = None
-        self._counter += 1
+
+        if self._video_writer is not None:
+            self._video_writer.release()
+            self._video_writer = None
+            self._counter += 1
-- 
2.43.0


From 9bbddb191e4784a1209af45c8688cd5f3bb5af78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:41 +0000
Subject: [PATCH 57/78] fix: each parallel environment is recorded in a video
 of its own

The recorders of all environments wrote the same file.
---
 mushroom_rl/core/vectorized_core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/core/vectorized_core.py b/mushroom_rl/core/vectorized_core.py
index f74973d..9d35713 100644
--- a/mushroom_rl/core/vectorized_core.py
+++ b/mushroom_rl/core/vectorized_core.py
@@ -37,7 +37,7 @@ class VectorCore(object):
 
         if record_dictionary is None:
             record_dictionary = dict()
-        self._record = [self._build_recorder_class(**record_dictionary) for _ in range(self.env.number)]
+        self._record = [self._build_recorder_class(i, **record_dictionary) for i in range(self.env.number)]
 
     def learn(self, n_steps=None, n_episodes=None, n_steps_per_fit=None, n_episodes_per_fit=None,
               render=False, record=False, quiet=False):
@@ -229,11 +229,12 @@ class VectorCore(object):
 
         return states
 
-    def _build_recorder_class(self, recorder_class=None, fps=None, **kwargs):
+    def _build_recorder_class(self, env_id, recorder_class=None, fps=None, **kwargs):
         """
         Method to create a video recorder class.
 
         Args:
+            env_id (int): the number of the environment to record. By default, it is part of the name of the video;
             recorder_class (class): the class used to record the video. By default, we use the ``VideoRecorder`` class
                 from mushroom. The class must implement the ``__call__`` and ``stop`` methods.
 
@@ -244,6 +245,7 @@ class VectorCore(object):
 
         if not recorder_class:
             recorder_class = VideoRecorder
+            kwargs['video_name'] = f"{kwargs.get('video_name') or 'recording'}-env{env_id}"
 
         if not fps:
             fps = int(1 / self.env.info.dt)
-- 
2.43.0


From f220c6e809a5909df63aeec5a342337622b22d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:46 +0000
Subject: [PATCH 58/78] fix: GPOMDP ignores the unfinished episode at the end
 of a batch

Its rewards were taken as the first rewards of the first episode of the next fit, and entered the baseline.
---
 .../policy_search/policy_gradient/gpomdp.py    | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/mushroom_rl/algorithms/policy_search/policy_gradient/gpomdp.py b/mushroom_rl/algorithms/policy_search/policy_gradient/gpomdp.py
index bf2acd6..bfcc1e8 100644
--- a/mushroom_rl/algorithms/policy_search/policy_gradient/gpomdp.py
+++ b/mushroom_rl/algorithms/policy_search/policy_gradient/gpomdp.py
@@ -78,18 +78,19 @@ class GPOMDP(PolicyGradient):
 
         self.list_sum_d_log_pi.append(self.sum_d_log_pi.copy())
 
-        squared_sum_d_log_pi = np.square(self.sum_d_log_pi)
+        self.step_count += 1
 
-        if self.step_count >= len(self.baseline_num):
-            self.baseline_num.append(list())
-            self.baseline_den.append(list())
+    def _episode_end_update(self):
+        for t in range(self.step_count):
+            squared_sum_d_log_pi = np.square(self.list_sum_d_log_pi[t])
 
-        self.baseline_num[self.step_count].append(discounted_reward * squared_sum_d_log_pi)
-        self.baseline_den[self.step_count].append(squared_sum_d_log_pi)
+            if t >= len(self.baseline_num):
+                self.baseline_num.append(list())
+                self.baseline_den.append(list())
 
-        self.step_count += 1
+            self.baseline_num[t].append(self.list_reward[t] * squared_sum_d_log_pi)
+            self.baseline_den[t].append(squared_sum_d_log_pi)
 
-    def _episode_end_update(self):
         self.list_reward_ep.append(self.list_reward)
         self.list_reward = list()
 
@@ -99,4 +100,5 @@ class GPOMDP(PolicyGradient):
     def _init_update(self):
         self.sum_d_log_pi = np.zeros(self.policy.weights_size)
         self.list_sum_d_log_pi = list()
+        self.list_reward = list()
         self.step_count = 0
-- 
2.43.0


From 595804cd4c2aa4bb42373514421f5d5feedf37da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:46 +0000
Subject: [PATCH 59/78] fix: a failed fit of a policy gradient agent does not
 enter the next one

The episodes parsed by a fit that was interrupted, or refused for having less than two episodes, stayed in the
accumulators: the next gradient paired the returns of the new episodes with the scores of the old ones.
---
 .../algorithms/policy_search/policy_gradient/enac.py     | 3 +++
 .../algorithms/policy_search/policy_gradient/gpomdp.py   | 6 ++++++
 .../policy_search/policy_gradient/policy_gradient.py     | 9 +++++++++
 .../policy_search/policy_gradient/reinforce.py           | 5 +++++
 4 files changed, 23 insertions(+)

diff --git a/mushroom_rl/algorithms/policy_search/policy_gradient/enac.py b/mushroom_rl/algorithms/policy_search/policy_gradient/enac.py
index a7af258..2e605df 100644
--- a/mushroom_rl/algorithms/policy_search/policy_gradient/enac.py
+++ b/mushroom_rl/algorithms/policy_search/policy_gradient/enac.py
@@ -56,6 +56,9 @@ class eNAC(PolicyGradient):
         psi = np.concatenate((self.sum_grad_log, self.psi_ext))
         self.sum_grad_log_list.append(psi)
 
+    def _init_fit(self):
+        self.sum_grad_log_list = list()
+
     def _init_update(self):
         self.psi_ext = None
         self.sum_grad_log = np.zeros(self.policy.weights_size)
diff --git a/mushroom_rl/algorithms/policy_search/policy_gradient/gpomdp.py b/mushroom_rl/algorithms/policy_search/policy_gradient/gpomdp.py
index bfcc1e8..7bf6b87 100644
--- a/mushroom_rl/algorithms/policy_search/policy_gradient/gpomdp.py
+++ b/mushroom_rl/algorithms/policy_search/policy_gradient/gpomdp.py
@@ -97,6 +97,12 @@ class GPOMDP(PolicyGradient):
         self.list_sum_d_log_pi_ep.append(self.list_sum_d_log_pi)
         self.list_sum_d_log_pi = list()
 
+    def _init_fit(self):
+        self.list_reward_ep = list()
+        self.list_sum_d_log_pi_ep = list()
+        self.baseline_num = list()
+        self.baseline_den = list()
+
     def _init_update(self):
         self.sum_d_log_pi = np.zeros(self.policy.weights_size)
         self.list_sum_d_log_pi = list()
diff --git a/mushroom_rl/algorithms/policy_search/policy_gradient/policy_gradient.py b/mushroom_rl/algorithms/policy_search/policy_gradient/policy_gradient.py
index 6a4afef..2079d61 100644
--- a/mushroom_rl/algorithms/policy_search/policy_gradient/policy_gradient.py
+++ b/mushroom_rl/algorithms/policy_search/policy_gradient/policy_gradient.py
@@ -35,6 +35,7 @@ class PolicyGradient(Agent):
         J = list()
         self.df = 1.
         self.J_episode = 0.
+        self._init_fit()
         self._init_update()
         for sample in dataset:
             x, u, r, xn, _, last = self._parse(sample)
@@ -70,6 +71,14 @@ class PolicyGradient(Agent):
 
         self.policy.set_weights(theta_new)
 
+    def _init_fit(self):
+        """
+        This function is called at the beginning of each fit. The implementation
+        removes what a previous fit that failed left of its episodes.
+
+        """
+        pass
+
     def _init_update(self):
         """
         This function is called, when parsing the dataset, at the beginning
diff --git a/mushroom_rl/algorithms/policy_search/policy_gradient/reinforce.py b/mushroom_rl/algorithms/policy_search/policy_gradient/reinforce.py
index f241f0b..587153f 100644
--- a/mushroom_rl/algorithms/policy_search/policy_gradient/reinforce.py
+++ b/mushroom_rl/algorithms/policy_search/policy_gradient/reinforce.py
@@ -52,5 +52,10 @@ class REINFORCE(PolicyGradient):
         self.baseline_num.append(squared_sum_d_log_pi * self.J_episode)
         self.baseline_den.append(squared_sum_d_log_pi)
 
+    def _init_fit(self):
+        self.list_sum_d_log_pi = list()
+        self.baseline_num = list()
+        self.baseline_den = list()
+
     def _init_update(self):
         self.sum_d_log_pi = np.zeros(self.policy.weights_size)
-- 
2.43.0


From 05ba4cffc469bdd031a6d5417e4432d77f9dbd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:34 +0000
Subject: [PATCH 60/78] fix: steps without extra information keep their place
 among the others

ExtraInfo forgot how many steps it had parsed as long as none of them had a key,
so information of later steps was attributed to the first ones, and the
vectorized core failed when such steps were left over after a fit.
---
 mushroom_rl/core/dataset.py    |  2 +-
 mushroom_rl/core/extra_info.py | 67 ++++++++++++++++++++++++++++------
 2 files changed, 56 insertions(+), 13 deletions(-)

diff --git a/mushroom_rl/core/dataset.py b/mushroom_rl/core/dataset.py
index bfe2389..ee97106 100644
--- a/mushroom_rl/core/dataset.py
+++ b/mushroom_rl/core/dataset.py
@@ -197,7 +197,7 @@ class Dataset(Serializable):
         dataset = cls.create_raw_instance()
 
         if info is None:
-            dataset._info = ExtraInfo(1, backend)
+            dataset._info = ExtraInfo(1, backend, n_empty_steps=len(states))
         else:
             dataset._info = info.copy()
 
diff --git a/mushroom_rl/core/extra_info.py b/mushroom_rl/core/extra_info.py
index e439aee..7d43d80 100644
--- a/mushroom_rl/core/extra_info.py
+++ b/mushroom_rl/core/extra_info.py
@@ -11,12 +11,15 @@ class ExtraInfo(Serializable, UserDict):
     """
     A class to to collect and parse step information
     """
-    def __init__(self, n_envs, backend, device=None):
+    def __init__(self, n_envs, backend, device=None, n_empty_steps=0):
         """
         Constructor.
 
         Args:
             n_envs (int): Number of parallel environments
+            backend (str): name of the backend of the arrays
+            device (str, None): device of the arrays
+            n_empty_steps (int, 0): Number of steps without any information to start with
         """
         self._n_envs = n_envs
         self._array_backend = ArrayBackend.get_array_backend(backend)
@@ -26,6 +29,7 @@ class ExtraInfo(Serializable, UserDict):
         self._key_mapping = {} #maps keys for future output to key paths
         self._shape_mapping = {} #maps keys to additional shapes for arrays
         self._structured_storage = {}
+        self._n_empty_steps = n_empty_steps #number of parsed steps as long as none of them has a key
         super().__init__()
         self._add_all_save_attr()
 
@@ -65,11 +69,19 @@ class ExtraInfo(Serializable, UserDict):
                     assert isinstance(env_data, dict)
                     self._update_key_mapping(env_data, True)
 
+        # without any key there are no arrays, only the number of steps matters
+        if not self._key_mapping:
+            self._n_empty_steps += len(self._storage)
+            self._storage = []
+            self._array_backend = ArrayBackend.get_array_backend(to)
+            self.data = {}
+            return
+
         # calculate the size for the array
         if self._structured_storage:
             length_structured_storage = self._structured_storage[next(iter(self._structured_storage.keys()))].shape[0]
         else:
-            length_structured_storage = 0
+            length_structured_storage = self._n_empty_steps
         size = (len(self._storage) + length_structured_storage, self._n_envs) if self._n_envs > 1 else (len(self._storage) + length_structured_storage, )
         
         #create output dictionary with empty arrays
@@ -79,7 +91,7 @@ class ExtraInfo(Serializable, UserDict):
         }
 
         #fill output with elements stored in structured storage
-        if self._structured_storage:
+        if length_structured_storage > 0:
             for key in output:
                 index = length_structured_storage
                 value = self._convert(self._structured_storage.get(key), to)
@@ -95,6 +107,7 @@ class ExtraInfo(Serializable, UserDict):
 
         self._structured_storage = {key: value for key, value in output.items()}
         self._storage = []
+        self._n_empty_steps = 0
         self._array_backend = ArrayBackend.get_array_backend(to)
             
         self.data = output
@@ -116,6 +129,9 @@ class ExtraInfo(Serializable, UserDict):
         info._key_mapping = self._key_mapping
         info._structured_storage = {}
 
+        if self._n_empty_steps > 0:
+            info._n_empty_steps = self._n_empty_steps * self._n_envs if mask is None else int(mask.sum())
+
         for key in self.data:
             if mask is None:
                 info.data[key] = info._array_backend.flatten(self.data[key])
@@ -139,15 +155,18 @@ class ExtraInfo(Serializable, UserDict):
         """
         assert(self._n_envs == other.n_envs)
 
-        if self._structured_storage or other._structured_storage:
+        if self._structured_storage or other._structured_storage or self._n_empty_steps or other._n_empty_steps:
             self.parse()
             other.parse()
 
         info = ExtraInfo(self._n_envs, self._array_backend.get_backend_name(), self._device)
         info._storage = self._storage + other._storage
 
-        info._structured_storage = self._concatenate_dictionary(self._structured_storage, other._structured_storage, self._array_backend, other._array_backend)
-        info.data = self._concatenate_dictionary(self.data, other.data, self._array_backend, other._array_backend)
+        n_empty_steps = (self._n_empty_steps, other._n_empty_steps)
+        info._structured_storage = self._concatenate_dictionary(self._structured_storage, other._structured_storage, self._array_backend, other._array_backend, *n_empty_steps)
+        info.data = self._concatenate_dictionary(self.data, other.data, self._array_backend, other._array_backend, *n_empty_steps)
+        if not info._structured_storage:
+            info._n_empty_steps = sum(n_empty_steps)
 
         #combine key_mapping
         info._key_mapping = self._key_mapping.copy()
@@ -183,7 +202,7 @@ class ExtraInfo(Serializable, UserDict):
         array2 = array1_backend.convert(array2, backend=array2_backend)
         return array1_backend.concatenate((array1, array2))
     
-    def _concatenate_dictionary(self, dict1, dict2, backend1, backend2):
+    def _concatenate_dictionary(self, dict1, dict2, backend1, backend2, n_empty_steps1, n_empty_steps2):
         """
         Concatenate dict1 with dict2.
 
@@ -192,17 +211,19 @@ class ExtraInfo(Serializable, UserDict):
             dict2 (dict): Flat dictionary containing arrays of backend2
             backend1 (ArrayBackend): Backend of arrays in dict1.
             backend2 (ArrayBackend): Backend of arrays in dict2.
+            n_empty_steps1 (int): Number of steps of dict1 in case it has no keys.
+            n_empty_steps2 (int): Number of steps of dict2 in case it has no keys.
 
         Returns
             dict: Concatenation of dict1 and dict2
         """
-        if not dict1:
+        if not dict1 and n_empty_steps1 == 0:
             return dict2
-        if not dict2:
+        if not dict2 and n_empty_steps2 == 0:
             return dict1
-        
-        array_length_dict1 = backend1.shape(dict1[next(iter(dict1.keys()))])[0]
-        array_length_dict2 = backend2.shape(dict2[next(iter(dict2.keys()))])[0]
+
+        array_length_dict1 = backend1.shape(dict1[next(iter(dict1.keys()))])[0] if dict1 else n_empty_steps1
+        array_length_dict2 = backend2.shape(dict2[next(iter(dict2.keys()))])[0] if dict2 else n_empty_steps2
 
         r = {}
 
@@ -219,6 +240,7 @@ class ExtraInfo(Serializable, UserDict):
         info._key_mapping = self._key_mapping.copy()
         info._shape_mapping = self._shape_mapping.copy()
         info._structured_storage = self._structured_storage.copy()
+        info._n_empty_steps = self._n_empty_steps
         info.data = self.data.copy()
             
         return info
@@ -240,6 +262,9 @@ class ExtraInfo(Serializable, UserDict):
         info._key_mapping = self._key_mapping
         info._shape_mapping = self._shape_mapping
 
+        if self._n_empty_steps > 0:
+            info._n_empty_steps = self._count_selected(index, self._n_empty_steps)
+
         if not copy:
             info._structured_storage = {key: value[index, ...] for key, value in self._structured_storage.items()}
             info.data = {key: value[index, ...] for key, value in self.data.items()}
@@ -261,8 +286,25 @@ class ExtraInfo(Serializable, UserDict):
         self._key_mapping = {}
         self._shape_mapping = {}
         self._structured_storage = {}
+        self._n_empty_steps = 0
         self.data = {}
 
+    @staticmethod
+    def _count_selected(index, n_steps):
+        """
+        Args:
+            index (int, slice, ndarray, tensor): indexes of the selected steps
+            n_steps (int): number of steps
+
+        Returns:
+            int: Number of selected steps
+        """
+        if isinstance(index, slice):
+            return len(range(n_steps)[index])
+        if isinstance(index, numbers.Number):
+            return 1
+        return int(index.sum()) if 'bool' in str(index.dtype) else len(index)
+
     def _add_all_save_attr(self):
         self._add_save_attr(
             _n_envs='primitive',
@@ -271,6 +313,7 @@ class ExtraInfo(Serializable, UserDict):
             data='primitive',
             _storage='primitive',
             _structured_storage='primitive',
+            _n_empty_steps='primitive',
             _key_mapping='primitive',
             _shape_mapping='primitive'
         )
-- 
2.43.0


From c2e697f8cdf981e551f474aabc79de033fb8463c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:18 +0000
Subject: [PATCH 61/78] fix: a ProMP takes its phase from the policy state

draw_action and __call__ did not pass the policy state on and always raised,
and the policy state of the caller was changed in place.
---
 mushroom_rl/policy/promps.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/mushroom_rl/policy/promps.py b/mushroom_rl/policy/promps.py
index d074a3e..57cc426 100644
--- a/mushroom_rl/policy/promps.py
+++ b/mushroom_rl/policy/promps.py
@@ -46,17 +46,17 @@ class ProMP(ParametricPolicy):
             _periodic='primitive'
         )
 
-    def __call__(self, state, action):
-        z = self._compute_phase(state)
+    def __call__(self, state, action, policy_state):
+        z = self._compute_phase(state, policy_state)
         mu = self._approximator(self._phi(z))
 
         if self._sigma is None:
-            return 1.0 if mu == action else 0.0
+            return 1.0 if np.array_equal(mu, action) else 0.0
         else:
             return multivariate_normal.pdf(action, mu, self._sigma)
 
     def draw_action(self, state, policy_state):
-        z = self._compute_phase(state)
+        z = self._compute_phase(state, policy_state)
 
         mu = self._approximator(self._phi(z))
 
@@ -75,12 +75,12 @@ class ProMP(ParametricPolicy):
             state (np.ndarray): The current state of the system.
 
         """
-        policy_state += 1
+        next_policy_state = policy_state + 1
 
-        if not self._periodic and policy_state >= self._duration:
-            policy_state = self._duration
+        if not self._periodic:
+            next_policy_state = np.minimum(next_policy_state, self._duration)
 
-        return policy_state
+        return next_policy_state
 
     def _compute_phase(self, state, policy_state):
         """
@@ -114,4 +114,4 @@ class ProMP(ParametricPolicy):
         self._duration = duration - 1
 
     def reset(self):
-        return 0
+        return np.zeros(1)
-- 
2.43.0


From 82377c9c9ad85fe55009b80787fa012b0633fb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:29 +0000
Subject: [PATCH 62/78] fix: a DMP keeps its dynamical system in the policy
 state

The policy still had the interface of the time before policy states: it could
not be built into an agent or used by the core, and parallel episodes would
have shared one dynamical system.
---
 mushroom_rl/policy/dmp.py | 63 +++++++++++++++++----------------------
 1 file changed, 27 insertions(+), 36 deletions(-)

diff --git a/mushroom_rl/policy/dmp.py b/mushroom_rl/policy/dmp.py
index 74a9aa5..c71d06c 100644
--- a/mushroom_rl/policy/dmp.py
+++ b/mushroom_rl/policy/dmp.py
@@ -25,12 +25,8 @@ class DMP(ParametricPolicy):
         self._alpha_z = alpha_z
         self._beta_z = beta_z
 
-        action_size = self._approximator.output_shape
-
-        self._v = np.zeros(action_size)
-        self._x = np.zeros(action_size)
-        self._z = np.zeros(action_size)
-        self._y = np.zeros(action_size)
+        # the policy state contains the variables v, x, z and y of the dynamical system
+        super().__init__(policy_state_shape=(4,) + self._approximator.output_shape)
 
         self._add_save_attr(
             _approximator='mushroom',
@@ -41,20 +37,16 @@ class DMP(ParametricPolicy):
             _beta_v='numpy',
             _alpha_z='numpy',
             _beta_z='numpy',
-            _g='numpy',
-            _v='numpy',
-            _x='numpy',
-            _z='numpy',
-            _y='numpy'
+            _g='numpy'
         )
 
-    def __call__(self, state, action):
-        return 1.0 if np.allclose(self._y == action) else 0.0
+    def __call__(self, state, action, policy_state):
+        return 1.0 if np.allclose(self.update_system(state, policy_state)[3], action) else 0.0
 
-    def draw_action(self, state):
-        self.update_system(state)
+    def draw_action(self, state, policy_state):
+        next_policy_state = self.update_system(state, policy_state)
 
-        return self._y
+        return next_policy_state[3].copy(), next_policy_state
 
     def set_goal(self, goal):
         self._g = goal
@@ -62,35 +54,38 @@ class DMP(ParametricPolicy):
     def get_goal(self, state):
         return self._g
 
-    def update_system(self, state):
+    def update_system(self, state, policy_state):
         """
         Method that updates the dynamical system. Can be overridden to introduce complex state-dependant behaviors.
 
         Args:
-            state (np.ndarray): The current state of the system.
+            state (np.ndarray): The current state of the system;
+            policy_state (np.ndarray): The current variables v, x, z and y of the dynamical system.
+
+        Returns:
+            The next variables of the dynamical system.
 
         """
+        v, x, z, y = policy_state
+
         g = self.get_goal(state)
 
-        f = self._approximator(self._phi(self._x/g)) * self._v
+        f = self._approximator(self._phi(x/g)) * v
 
-        v_dot, x_dot = self._canonical_system(g)
-        y_dot, z_dot = self._transformation_system(f, g)
+        v_dot, x_dot = self._canonical_system(g, v, y)
+        y_dot, z_dot = self._transformation_system(f, g, z, y)
 
-        self._v += v_dot * self._dt
-        self._x += x_dot * self._dt
-        self._z += z_dot * self._dt
-        self._y += y_dot * self._dt
+        return policy_state + np.array([v_dot, x_dot, z_dot, y_dot]) * self._dt
 
-    def _transformation_system(self, f, g):
-        z_dot = self._alpha_z * (self._beta_z * (g - self._y) - self._z) / self._tau
-        y_dot = (self._z + f) / self._tau
+    def _transformation_system(self, f, g, z, y):
+        z_dot = self._alpha_z * (self._beta_z * (g - y) - z) / self._tau
+        y_dot = (z + f) / self._tau
 
         return y_dot, z_dot
 
-    def _canonical_system(self, g):
-        v_dot = self._alpha_v * (self._beta_v * (g - self._y) - self._v) / self._tau
-        x_dot = self._v / self._tau
+    def _canonical_system(self, g, v, y):
+        v_dot = self._alpha_v * (self._beta_v * (g - y) - v) / self._tau
+        x_dot = v / self._tau
 
         return v_dot, x_dot
 
@@ -105,9 +100,5 @@ class DMP(ParametricPolicy):
         return self._approximator.weights_size
 
     def reset(self):
-        action_size = self._approximator.output_shape
-        self._v = np.zeros(action_size)
-        self._x = np.zeros(action_size)
-        self._z = np.zeros(action_size)
-        self._y = np.zeros(action_size)
+        return np.zeros(self.policy_state_shape)
 
-- 
2.43.0


From 8ec7844a8a5ce22b15fa87dfee3ecdd174906918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:49 +0000
Subject: [PATCH 63/78] fix: ProMP and DMP can be saved: their basis functions
 are pickled

---
 mushroom_rl/policy/dmp.py    | 2 +-
 mushroom_rl/policy/promps.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/policy/dmp.py b/mushroom_rl/policy/dmp.py
index c71d06c..7c00d32 100644
--- a/mushroom_rl/policy/dmp.py
+++ b/mushroom_rl/policy/dmp.py
@@ -30,7 +30,7 @@ class DMP(ParametricPolicy):
 
         self._add_save_attr(
             _approximator='mushroom',
-            _phi='mushroom',
+            _phi='pickle',
             _dt='primitive',
             _tau='primitive',
             _alpha_v='numpy',
diff --git a/mushroom_rl/policy/promps.py b/mushroom_rl/policy/promps.py
index 57cc426..bc9d5a5 100644
--- a/mushroom_rl/policy/promps.py
+++ b/mushroom_rl/policy/promps.py
@@ -40,7 +40,7 @@ class ProMP(ParametricPolicy):
 
         self._add_save_attr(
             _approximator='mushroom',
-            _phi='mushroom',
+            _phi='pickle',
             _duration='primitive',
             _sigma='numpy',
             _periodic='primitive'
-- 
2.43.0


From c0c04a4ef1b90f3eb5e203649ab6e1167cf162fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:33 +0000
Subject: [PATCH 64/78] fix: an ensemble predicts single values, and the
 variance of a torch minimum

The prediction of one state and action by a table is a numpy scalar, which was
taken for a tensor; with compute_variance, the minimum (or maximum) of torch
predictions was looked for in the list of results.
---
 mushroom_rl/approximators/ensemble.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/mushroom_rl/approximators/ensemble.py b/mushroom_rl/approximators/ensemble.py
index d1f65c7..353e066 100644
--- a/mushroom_rl/approximators/ensemble.py
+++ b/mushroom_rl/approximators/ensemble.py
@@ -91,11 +91,11 @@ class Ensemble(Serializable):
                     raise NotFittedError
 
             prediction = self._prediction if prediction is None else prediction
-            if isinstance(predictions[0], np.ndarray):
-                predictions = np.array(predictions)
-            else:
+            if isinstance(predictions[0], torch.Tensor):
                 predictions = torch.stack(predictions, axis=0)
                 torch_output = True
+            else:
+                predictions = np.array(predictions)
 
             if prediction == 'mean':
                 results = predictions.mean(0)
@@ -107,13 +107,13 @@ class Ensemble(Serializable):
                 results = predictions.max(0)
             else:
                 raise ValueError
+
+            if torch_output and (prediction == 'min' or prediction == 'max'):
+                results = results.values
             if compute_variance:
                 results = [results, predictions.var(0)]
 
-        if torch_output and (prediction == 'min' or prediction == 'max'):
-            return results.values
-        else:
-            return results
+        return results
 
     def reset(self):
         """
-- 
2.43.0


From d41d67107ab1f7140baf9200a684e1884b288223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:52 +0000
Subject: [PATCH 65/78] fix: dropout is off after a fit that failed

The network stayed in training mode, so that the predictions were random until
the next successful fit.
---
 .../approximators/parametric/torch_approximator.py    | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/approximators/parametric/torch_approximator.py b/mushroom_rl/approximators/parametric/torch_approximator.py
index cbffe76..4a6cd56 100644
--- a/mushroom_rl/approximators/parametric/torch_approximator.py
+++ b/mushroom_rl/approximators/parametric/torch_approximator.py
@@ -116,6 +116,14 @@ class TorchApproximator(Serializable):
         if self._dropout:
             self.network.train()
 
+        try:
+            self._fit(*args, n_epochs=n_epochs, weights=weights, epsilon=epsilon, patience=patience,
+                      validation_split=validation_split, **kwargs)
+        finally:
+            if self._dropout:
+                self.network.eval()
+
+    def _fit(self, *args, n_epochs, weights, epsilon, patience, validation_split, **kwargs):
         if epsilon is not None:
             n_epochs = np.inf if n_epochs is None else n_epochs
             check_loss = True
@@ -180,9 +188,6 @@ class TorchApproximator(Serializable):
 
                     self._last_loss = mean_loss_current
 
-        if self._dropout:
-            self.network.eval()
-
     def _fit_epoch(self, args, use_weights, kwargs):
         if self._batch_size > 0:
             batches = minibatch_generator(self._batch_size, *args)
-- 
2.43.0


From a4be243f26e315bd77411a2e6525659669285b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:39 +0000
Subject: [PATCH 66/78] fix: a dataset callback can be cleaned before the first
 fit

---
 mushroom_rl/utils/callbacks/collect_dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/utils/callbacks/collect_dataset.py b/mushroom_rl/utils/callbacks/collect_dataset.py
index 1510e3d..d48a3b8 100644
--- a/mushroom_rl/utils/callbacks/collect_dataset.py
+++ b/mushroom_rl/utils/callbacks/collect_dataset.py
@@ -24,7 +24,8 @@ class CollectDataset(Callback):
             self._dataset += dataset
 
     def clean(self):
-        self._dataset.clear()
+        if self._dataset is not None:
+            self._dataset.clear()
 
     def get(self):
         return self._dataset
-- 
2.43.0


From e99e04eadf1d8d7785f399dde3e02b5e619de4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:20 +0000
Subject: [PATCH 67/78] fix: log probability of one-dimensional actions in
 RecurrentGaussianTorchPolicy

---
 mushroom_rl/policy/recurrent_torch_policy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/policy/recurrent_torch_policy.py b/mushroom_rl/policy/recurrent_torch_policy.py
index a176112..e46627b 100644
--- a/mushroom_rl/policy/recurrent_torch_policy.py
+++ b/mushroom_rl/policy/recurrent_torch_policy.py
@@ -40,7 +40,7 @@ class RecurrentGaussianTorchPolicy(GaussianTorchPolicy):
         return action, policy_state
 
     def log_prob_t(self, state, action, policy_state, lengths):
-        return self.distribution_t(state, policy_state, lengths).log_prob(action.squeeze())[:, None]
+        return self.distribution_t(state, policy_state, lengths).log_prob(action)[:, None]
 
     def entropy_t(self, state=None):
         return self._action_dim / 2 * np.log(2 * np.pi * np.e) + torch.sum(self._log_sigma)
-- 
2.43.0


From a49c69fd9464d984ac6bc9f8bb896e21d1a27909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:36 +0000
Subject: [PATCH 68/78] fix: a batch of one transition does not turn the policy
 of PPO, PPO_BPTT and TRPO into NaN

The standard deviation of a single advantage is not defined.
---
 mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo.py   | 3 ++-
 .../algorithms/actor_critic/deep_actor_critic/ppo_bptt.py      | 3 ++-
 mushroom_rl/algorithms/actor_critic/deep_actor_critic/trpo.py  | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo.py b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo.py
index b452488..5fe105c 100644
--- a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo.py
+++ b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo.py
@@ -76,7 +76,8 @@ class PPO(OnPolicyDeepAC):
 
         v_target, adv = compute_gae(self._V, state, next_state, reward, absorbing, last, self.mdp_info.gamma,
                                     self._lambda())
-        adv = (adv - torch.mean(adv)) / (torch.std(adv) + 1e-8)
+        if len(adv) > 1:
+            adv = (adv - torch.mean(adv)) / (torch.std(adv) + 1e-8)
 
         adv = adv.detach()
         v_target = v_target.detach()
diff --git a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
index 7f986f6..aeac6aa 100644
--- a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
+++ b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
@@ -82,7 +82,8 @@ class PPO_BPTT(OnPolicyDeepAC):
 
         v_target, adv = self.compute_gae(self._V, state_seq, policy_state_seq, state_next_seq, policy_next_state_seq,
                                          lengths, reward, absorbing, last, self.mdp_info.gamma, self._lambda())
-        adv = (adv - torch.mean(adv)) / (torch.std(adv) + 1e-8)
+        if len(adv) > 1:
+            adv = (adv - torch.mean(adv)) / (torch.std(adv) + 1e-8)
 
         old_pol_dist = self.policy.distribution_t(state_old_seq, policy_state_seq, lengths)
         old_log_p = old_pol_dist.log_prob(action)[:, None].detach()
diff --git a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/trpo.py b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/trpo.py
index bdf9612..fe56dfe 100644
--- a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/trpo.py
+++ b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/trpo.py
@@ -87,7 +87,8 @@ class TRPO(OnPolicyDeepAC):
 
         v_target, adv = compute_gae(self._V, state, next_state, reward, absorbing, last,
                                     self.mdp_info.gamma, self._lambda())
-        adv = (adv - torch.mean(adv)) / (torch.std(adv) + 1e-8)
+        if len(adv) > 1:
+            adv = (adv - torch.mean(adv)) / (torch.std(adv) + 1e-8)
 
         adv = adv.detach()
         v_target = v_target.detach()
-- 
2.43.0


From 4ec3559a72de0438517bc5641b289ae6946b7523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:36 +0000
Subject: [PATCH 69/78] fix: PPO_BPTT weighs every transition with its own
 advantage when the critic returns a vector

With a critic as in examples/gym_recurrent_ppo.py the advantages were
broadcasted against the probability ratios.
---
 .../algorithms/actor_critic/deep_actor_critic/ppo_bptt.py        | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
index aeac6aa..d7b4f4a 100644
--- a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
+++ b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
@@ -84,6 +84,7 @@ class PPO_BPTT(OnPolicyDeepAC):
                                          lengths, reward, absorbing, last, self.mdp_info.gamma, self._lambda())
         if len(adv) > 1:
             adv = (adv - torch.mean(adv)) / (torch.std(adv) + 1e-8)
+        adv = adv.reshape(-1, 1)
 
         old_pol_dist = self.policy.distribution_t(state_old_seq, policy_state_seq, lengths)
         old_log_p = old_pol_dist.log_prob(action)[:, None].detach()
-- 
2.43.0


From f5a5ec4ecc6c92b585d4724a87fb526487b46d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:36 +0000
Subject: [PATCH 70/78] fix: TRPO keeps its policy when the gradient is zero,
 instead of NaN weights

---
 .../algorithms/actor_critic/deep_actor_critic/trpo.py    | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/trpo.py b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/trpo.py
index fe56dfe..e1e6566 100644
--- a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/trpo.py
+++ b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/trpo.py
@@ -107,11 +107,12 @@ class TRPO(OnPolicyDeepAC):
         loss.backward()
         g = TorchUtils.get_gradient(self.policy.parameters())
 
-        # Compute direction through conjugate gradient
-        stepdir = self._conjugate_gradient(g, state, old_pol_dist)
+        if torch.any(g):
+            # Compute direction through conjugate gradient
+            stepdir = self._conjugate_gradient(g, state, old_pol_dist)
 
-        # Line search
-        self._line_search(state, action, adv, old_log_prob, old_pol_dist, prev_loss, stepdir)
+            # Line search
+            self._line_search(state, action, adv, old_log_prob, old_pol_dist, prev_loss, stepdir)
 
         # VF update
         self._V.fit(state, v_target, **self._critic_fit_params)
-- 
2.43.0


From 60810affd73719dfb9a1f544e55078bbe2a935aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:43 +0000
Subject: [PATCH 71/78] fix: Monte Carlo advantages (and A2C) of a batch of one
 transition

---
 mushroom_rl/rl_utils/value_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/rl_utils/value_functions.py b/mushroom_rl/rl_utils/value_functions.py
index 3b6b338..f1b5c69 100644
--- a/mushroom_rl/rl_utils/value_functions.py
+++ b/mushroom_rl/rl_utils/value_functions.py
@@ -23,9 +23,9 @@ def compute_advantage_montecarlo(V, s, ss, r, absorbing, gamma):
         and the advantage function.
     """
     with torch.no_grad():
-        r = r.squeeze()
+        r = r.flatten()
         q = torch.zeros(len(r))
-        v = V(s).squeeze()
+        v = V(s).flatten()
 
         q_next = V(ss[-1]).squeeze().item()
         for rev_k in range(len(r)):
-- 
2.43.0


From f533b56115caf038d98c2812f8208bcb61b88a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:09 +0000
Subject: [PATCH 72/78] fix: DuelingDQN with avg_advantage=False

---
 mushroom_rl/algorithms/value/dqn/dueling_dqn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/algorithms/value/dqn/dueling_dqn.py b/mushroom_rl/algorithms/value/dqn/dueling_dqn.py
index 35d7880..b3c58be 100644
--- a/mushroom_rl/algorithms/value/dqn/dueling_dqn.py
+++ b/mushroom_rl/algorithms/value/dqn/dueling_dqn.py
@@ -36,7 +36,7 @@ class DuelingNetwork(nn.Module):
         if self._avg_advantage:
             q -= advantage.mean(1).reshape(-1, 1)
         else:
-            q -= advantage.max(1).reshape(-1, 1)
+            q -= advantage.max(1)[0].reshape(-1, 1)
 
         if action is None:
             return q
-- 
2.43.0


From b086d521c03142d3061e72cedca8f944bb744720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:15 +0000
Subject: [PATCH 73/78] fix: QuantileDQN can learn after it is loaded in a new
 process, and next to another one

The quantile midpoints were stored in the class by the constructor.
---
 mushroom_rl/algorithms/value/dqn/quantile_dqn.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mushroom_rl/algorithms/value/dqn/quantile_dqn.py b/mushroom_rl/algorithms/value/dqn/quantile_dqn.py
index 7a96e61..c7c8bb0 100644
--- a/mushroom_rl/algorithms/value/dqn/quantile_dqn.py
+++ b/mushroom_rl/algorithms/value/dqn/quantile_dqn.py
@@ -11,7 +11,9 @@ from mushroom_rl.approximators.parametric import NumpyTorchApproximator
 
 
 def quantile_huber_loss(input, target):
-    tau = QuantileDQN.tau_hat.repeat(input.shape[0], 1)
+    tau = torch.arange(input.shape[-1] + 1, device=input.device) / input.shape[-1]
+    tau_hat = (tau[:-1] + tau[1:]) / 2
+    tau = tau_hat.repeat(input.shape[0], 1)
 
     target = target.t().unsqueeze(-1).repeat(1, 1, tau.shape[-1])
     input = input.repeat(tau.shape[-1], 1, 1)
@@ -88,9 +90,6 @@ class QuantileDQN(AbstractDQN):
 
         self._n_quantiles = n_quantiles
 
-        tau = torch.arange(n_quantiles + 1) / n_quantiles
-        QuantileDQN.tau_hat = torch.Tensor([(tau[i-1] + tau[i]) / 2 for i in range(1, len(tau))])
-
         self._add_save_attr(
             _n_quantiles='primitive'
         )
-- 
2.43.0


From 8dd78dfebd6c0999eeabfbd66b262f77eb22482a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:55 +0000
Subject: [PATCH 74/78] fix: CategoricalDQN and Rainbow project returns at
 v_max for every number of atoms

Rounding could move the last atom beyond the support (IndexError).
---
 mushroom_rl/algorithms/value/dqn/categorical_dqn.py | 2 +-
 mushroom_rl/algorithms/value/dqn/rainbow.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/algorithms/value/dqn/categorical_dqn.py b/mushroom_rl/algorithms/value/dqn/categorical_dqn.py
index 3855d31..cca34e5 100644
--- a/mushroom_rl/algorithms/value/dqn/categorical_dqn.py
+++ b/mushroom_rl/algorithms/value/dqn/categorical_dqn.py
@@ -135,7 +135,7 @@ class CategoricalDQN(AbstractDQN):
             bell_a = (reward.reshape(-1, 1) + gamma_z).clip(self._v_min,
                                                             self._v_max)
 
-            b = (bell_a - self._v_min) / self._delta
+            b = ((bell_a - self._v_min) / self._delta).clip(0, self._n_atoms - 1)
             l = np.floor(b).astype(int)
             u = np.ceil(b).astype(int)
 
diff --git a/mushroom_rl/algorithms/value/dqn/rainbow.py b/mushroom_rl/algorithms/value/dqn/rainbow.py
index ce31b3c..1067f27 100644
--- a/mushroom_rl/algorithms/value/dqn/rainbow.py
+++ b/mushroom_rl/algorithms/value/dqn/rainbow.py
@@ -140,7 +140,7 @@ class Rainbow(AbstractDQN):
             bell_a = (reward.reshape(-1, 1) + gamma_z).clip(self._v_min,
                                                             self._v_max)
 
-            b = (bell_a - self._v_min) / self._delta
+            b = ((bell_a - self._v_min) / self._delta).clip(0, self._n_atoms - 1)
             l = np.floor(b).astype(int)
             u = np.ceil(b).astype(int)
 
-- 
2.43.0


From 092ff427c2d6f1afdb4d9ee0014495f5f6cfa78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:26 +0000
Subject: [PATCH 75/78] fix: BoltzmannTorchPolicy draws one action for each
 environment of a vectorized environment

---
 mushroom_rl/policy/torch_policy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/policy/torch_policy.py b/mushroom_rl/policy/torch_policy.py
index 5423a86..683268b 100644
--- a/mushroom_rl/policy/torch_policy.py
+++ b/mushroom_rl/policy/torch_policy.py
@@ -279,7 +279,7 @@ class BoltzmannTorchPolicy(TorchPolicy):
         if len(action.shape) > 1:
             return action
         else:
-            return action.unsqueeze(0)
+            return action.unsqueeze(-1)
 
     def log_prob_t(self, state, action):
         return self.distribution_t(state).log_prob(action)[:, None]
-- 
2.43.0


From 92273c531233b37aa499d2e9e046110c0448b9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:08 +0000
Subject: [PATCH 76/78] fix: AirHockey PyBullet environments with obs_noise

---
 mushroom_rl/environments/pybullet_envs/air_hockey/single.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mushroom_rl/environments/pybullet_envs/air_hockey/single.py b/mushroom_rl/environments/pybullet_envs/air_hockey/single.py
index 3e61828..fbd9e65 100644
--- a/mushroom_rl/environments/pybullet_envs/air_hockey/single.py
+++ b/mushroom_rl/environments/pybullet_envs/air_hockey/single.py
@@ -57,8 +57,7 @@ class AirHockeySingleBullet(AirHockeyBaseBullet):
         robot_pos[2] = self.get_sim_state(state, self.agents[0]['name'] + "/joint_3", PyBulletObservationType.JOINT_POS)
 
         if self.obs_noise:
-            puck_pose_2d[:2] += np.random.randn(2) * 0.001
-            puck_pose_2d[2] += np.random.randn(1) * 0.001
+            puck_pose_2d += np.random.randn(2) * 0.001
 
         puck_lin_vel = self.get_sim_state(state, "puck", PyBulletObservationType.BODY_LIN_VEL)
         puck_ang_vel = self.get_sim_state(state, "puck", PyBulletObservationType.BODY_ANG_VEL)
-- 
2.43.0


From 0f4952ffb22b333a7f4b54cd234a2a35084c9e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:08 +0000
Subject: [PATCH 77/78] fix: AirHockey PyBullet environments with obs_delay

---
 .../environments/pybullet_envs/air_hockey/single.py  | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/environments/pybullet_envs/air_hockey/single.py b/mushroom_rl/environments/pybullet_envs/air_hockey/single.py
index fbd9e65..6141f6c 100644
--- a/mushroom_rl/environments/pybullet_envs/air_hockey/single.py
+++ b/mushroom_rl/environments/pybullet_envs/air_hockey/single.py
@@ -32,6 +32,12 @@ class AirHockeySingleBullet(AirHockeyBaseBullet):
         self._change_dynamics()
         self._disable_collision()
 
+    def reset(self, state=None):
+        # The velocity filter starts anew at every episode
+        self.obs_prev = None
+
+        return super().reset(state)
+
     def _modify_mdp_info(self, mdp_info):
         """
         puck position indexes: [0, 1]
@@ -71,13 +77,13 @@ class AirHockeySingleBullet(AirHockeyBaseBullet):
         robot_vel[2] = self.get_sim_state(state, self.agents[0]['name'] + "/joint_3",
                                           PyBulletObservationType.JOINT_VEL)
 
-        if self.obs_delay:
+        if self.obs_delay and self.obs_prev is not None:
             alpha = 0.5
-            puck_vel_2d = alpha * puck_vel_2d + (1 - alpha) * self.obs_prev[2:6]
+            puck_vel_2d = alpha * puck_vel_2d + (1 - alpha) * self.obs_prev[2:5]
             robot_vel = alpha * robot_vel + (1 - alpha) * self.obs_prev[8:11]
 
         self.obs_prev = np.concatenate([puck_pose_2d, puck_vel_2d, robot_pos, robot_vel])
-        return self.obs_prev
+        return self.obs_prev.copy()
 
     def _puck_2d_in_robot_frame(self, puck_in, robot_frame, type='pose'):
         if type == 'pose':
-- 
2.43.0


From 81781b2b79ba73aea43e3c3a08043dfcf9a1ba0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:09 +0000
Subject: [PATCH 78/78] fix: AirHockey PyBullet environments with env_noise

---
 mushroom_rl/environments/pybullet_envs/air_hockey/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/environments/pybullet_envs/air_hockey/base.py b/mushroom_rl/environments/pybullet_envs/air_hockey/base.py
index dfd7462..3576770 100644
--- a/mushroom_rl/environments/pybullet_envs/air_hockey/base.py
+++ b/mushroom_rl/environments/pybullet_envs/air_hockey/base.py
@@ -137,7 +137,7 @@ class AirHockeyBaseBullet(PyBullet):
     def _simulation_pre_step(self):
         if self.env_noise:
             force = np.concatenate([np.random.randn(2), [0]]) * 0.0005
-            self._client.applyExternalForce(self._model_map['puck']['id'], -1, force, [0., 0., 0.],
+            self._client.applyExternalForce(self._model_map['puck'], -1, force, [0., 0., 0.],
                                             self._client.WORLD_FRAME)
 
     def is_absorbing(self, state):
-- 
2.43.0

