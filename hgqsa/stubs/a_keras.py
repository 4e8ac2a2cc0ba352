# Abstract models of the keras / tensorflow classes the repository subclasses or inspects.
# Written in the analysed python subset; only the behaviour the repository relies on.
import tensorflow as tf
from keras import activations, constraints, initializers, regularizers
from keras import backend as K
from keras.src.utils import conv_utils


class KerasTensor:
    __paths__ = ('keras.kt.KerasTensor',)

    def __init__(self, shape, node, index=0):
        self.shape = shape
        self.node = node
        self._keras_history = KerasHistory(node.layer, index)


class KerasHistory:
    def __init__(self, layer, tensor_index):
        self.layer = layer
        self.node_index = 0
        self.tensor_index = tensor_index


class Node:
    __paths__ = ('keras.node.Node',)

    def __init__(self, layer, inputs):
        self.layer = layer
        self.outbound_layer = layer
        self.is_input = inputs is None
        self.keras_inputs = [] if inputs is None else inputs
        self.parent_nodes = [t.node for t in self.keras_inputs]
        ls = [n.layer for n in self.parent_nodes]
        self.inbound_layers = ls[0] if len(ls) == 1 else ls


def _shape_of(x):
    if isinstance(x, (list, tuple)):
        return [t.shape for t in x]
    return x.shape


def _is_symbolic(x):
    if isinstance(x, (list, tuple)):
        return len(x) > 0 and isinstance(x[0], KerasTensor)
    return isinstance(x, KerasTensor)


class Layer:
    __paths__ = ('keras.layers.Layer', 'keras.src.engine.base_layer.Layer', 'keras.src.engine.base_layer.BaseRandomLayer')

    def __init__(self, trainable=True, name=None, dtype=None, dynamic=False, **kwargs):
        for k in kwargs:
            if k not in ('input_dim', 'input_shape', 'batch_input_shape', 'batch_size', 'weights', 'activity_regularizer', 'autocast', 'implementation', 'experimental_autocast'):
                raise TypeError('unexpected keyword')
        self.trainable = trainable
        self._name = _sa_autoname(self) if name is None else name
        self.dtype = 'float32' if dtype is None else dtype
        self.built = False
        self.activity_regularizer = kwargs.get('activity_regularizer', None)
        self._inbound_nodes = []
        self._outbound_nodes = []
        self._init_extra = {k: v for k, v in kwargs.items() if k != 'activity_regularizer'}

    @property
    def name(self):
        return self._name

    @property
    def input_shape(self):
        if len(self._inbound_nodes) == 0:
            raise AttributeError('no inbound nodes')
        return _sa_single([t.shape for t in self._inbound_nodes[0].keras_inputs])

    @property
    def output_shape(self):
        if len(self._inbound_nodes) == 0:
            raise AttributeError('no inbound nodes')
        return self._inbound_nodes[0].output_shape

    @property
    def weights(self):
        return _sa_weights(self)

    def build(self, input_shape):
        self._build_input_shape = input_shape
        self.built = True

    def add_weight(self, name=None, shape=None, dtype=None, initializer=None, regularizer=None, trainable=None, constraint=None, **kwargs):
        return _sa_add_weight(self, name, shape, initializer, regularizer, trainable, constraint, dtype)

    def add_loss(self, losses, **kwargs):
        _sa_event('add_loss', losses)

    def get_config(self):
        c = {'name': self.name, 'trainable': self.trainable, 'dtype': self.dtype}
        c.update(self._init_extra)
        return c

    @classmethod
    def from_config(cls, config):
        return cls(**config)

    def compute_output_shape(self, input_shape):
        return input_shape

    def call(self, inputs, **kwargs):
        return inputs

    def __call__(self, inputs, **kwargs):
        if _is_symbolic(inputs):
            if not self.built:
                self.build(_shape_of(inputs))
                self.built = True
            out_shape = self.compute_output_shape(_shape_of(inputs))
            ts = list(inputs) if isinstance(inputs, (list, tuple)) else [inputs]
            node = Node(self, ts)
            node.output_shape = out_shape
            self._inbound_nodes.append(node)
            for n in node.parent_nodes:
                n.layer._outbound_nodes.append(node)
            if isinstance(out_shape, list) and len(out_shape) > 1 and isinstance(out_shape[0], (tuple, list)):
                node.outputs = [KerasTensor(s, node, i) for i, s in enumerate(out_shape)]
            else:
                node.outputs = KerasTensor(out_shape, node)
            return node.outputs
        if not self.built:
            self.build(_shape_of(inputs))
            self.built = True
        return self.call(inputs, **kwargs)


class InputLayer(Layer):
    __paths__ = ('keras.layers.InputLayer', 'keras.src.engine.input_layer.InputLayer')

    def __init__(self, input_shape=None, **kwargs):
        super().__init__(**kwargs)
        self.shape_ = input_shape
        self.built = True


class Dense(Layer):
    __paths__ = ('keras.layers.Dense', 'keras.src.layers.core.dense.Dense', 'keras.src.layers.Dense')

    def __init__(self, units, activation=None, use_bias=True, kernel_initializer='glorot_uniform', bias_initializer='zeros', kernel_regularizer=None, bias_regularizer=None, activity_regularizer=None, kernel_constraint=None, bias_constraint=None, **kwargs):
        super().__init__(activity_regularizer=activity_regularizer, **kwargs)
        self.units = units
        self.activation = activations.get(activation)
        self.use_bias = use_bias
        self.kernel_initializer = initializers.get(kernel_initializer)
        self.bias_initializer = initializers.get(bias_initializer)
        self.kernel_regularizer = regularizers.get(kernel_regularizer)
        self.bias_regularizer = regularizers.get(bias_regularizer)
        self.kernel_constraint = constraints.get(kernel_constraint)
        self.bias_constraint = constraints.get(bias_constraint)

    def build(self, input_shape):
        self.kernel = self.add_weight('kernel', shape=(input_shape[-1], self.units), initializer=self.kernel_initializer, regularizer=self.kernel_regularizer, constraint=self.kernel_constraint, dtype=self.dtype, trainable=True)
        if self.use_bias:
            self.bias = self.add_weight('bias', shape=(self.units,), initializer=self.bias_initializer, regularizer=self.bias_regularizer, constraint=self.bias_constraint, dtype=self.dtype, trainable=True)
        else:
            self.bias = None
        self.built = True

    def call(self, inputs):
        z = tf.matmul(inputs, self.kernel)
        if self.use_bias:
            z = tf.nn.bias_add(z, self.bias)
        return self.activation(z)

    def compute_output_shape(self, input_shape):
        return input_shape[:-1] + (self.units,)

    def get_config(self):
        config = super().get_config()
        config.update({
            'units': self.units,
            'activation': activations.serialize(self.activation),
            'use_bias': self.use_bias,
            'kernel_initializer': initializers.serialize(self.kernel_initializer),
            'bias_initializer': initializers.serialize(self.bias_initializer),
            'kernel_regularizer': regularizers.serialize(self.kernel_regularizer),
            'bias_regularizer': regularizers.serialize(self.bias_regularizer),
            'activity_regularizer': regularizers.serialize(self.activity_regularizer),
            'kernel_constraint': constraints.serialize(self.kernel_constraint),
            'bias_constraint': constraints.serialize(self.bias_constraint),
        })
        return config


class Conv(Layer):
    __paths__ = ('keras.src.layers.convolutional.base_conv.Conv',)

    def __init__(self, rank, filters, kernel_size, strides=1, padding='valid', data_format=None, dilation_rate=1, groups=1, activation=None, use_bias=True, kernel_initializer='glorot_uniform', bias_initializer='zeros', kernel_regularizer=None, bias_regularizer=None, activity_regularizer=None, kernel_constraint=None, bias_constraint=None, trainable=True, name=None, conv_op=None, **kwargs):
        super().__init__(trainable=trainable, name=name, activity_regularizer=regularizers.get(activity_regularizer), **kwargs)
        self.rank = rank
        self.filters = filters
        self.groups = groups
        self.kernel_size = _sa_norm_tuple(kernel_size, rank)
        self.strides = _sa_norm_tuple(strides, rank)
        self.padding = padding
        self.data_format = 'channels_last' if data_format is None else data_format
        self.dilation_rate = _sa_norm_tuple(dilation_rate, rank)
        self.activation = activations.get(activation)
        self.use_bias = use_bias
        self.kernel_initializer = initializers.get(kernel_initializer)
        self.bias_initializer = initializers.get(bias_initializer)
        self.kernel_regularizer = regularizers.get(kernel_regularizer)
        self.bias_regularizer = regularizers.get(bias_regularizer)
        self.kernel_constraint = constraints.get(kernel_constraint)
        self.bias_constraint = constraints.get(bias_constraint)
        self._is_causal = self.padding == 'causal'
        self._channels_first = self.data_format == 'channels_first'
        self._tf_data_format = conv_utils.convert_data_format(self.data_format, self.rank + 2)

    def build(self, input_shape):
        cin = input_shape[1] if self.data_format == 'channels_first' else input_shape[-1]
        self.kernel = self.add_weight('kernel', shape=self.kernel_size + (cin // self.groups, self.filters), initializer=self.kernel_initializer, regularizer=self.kernel_regularizer, constraint=self.kernel_constraint, dtype=self.dtype, trainable=True)
        if self.use_bias:
            self.bias = self.add_weight('bias', shape=(self.filters,), initializer=self.bias_initializer, regularizer=self.bias_regularizer, constraint=self.bias_constraint, dtype=self.dtype, trainable=True)
        else:
            self.bias = None
        self.built = True

    def _compute_causal_padding(self, inputs):
        left = self.dilation_rate[0] * (self.kernel_size[0] - 1)
        if self.data_format == 'channels_last':
            return [[0, 0], [left, 0], [0, 0]]
        return [[0, 0], [0, 0], [left, 0]]

    def convolution_op(self, inputs, kernel):
        if self.padding == 'causal':
            inputs = tf.pad(inputs, self._compute_causal_padding(inputs))
        return tf.nn.convolution(inputs, kernel, strides=self.strides, padding='VALID' if self.padding == 'causal' else self.padding.upper(), dilations=self.dilation_rate, data_format=self._tf_data_format)

    def compute_output_shape(self, input_shape):
        return _sa_conv_shape(self, input_shape)

    def call(self, inputs):
        z = self.convolution_op(inputs, self.kernel)
        if self.use_bias:
            z = tf.nn.bias_add(z, self.bias, data_format=self._tf_data_format)
        return self.activation(z)

    def get_config(self):
        config = super().get_config()
        config.update({
            'filters': self.filters,
            'kernel_size': self.kernel_size,
            'strides': self.strides,
            'padding': self.padding,
            'data_format': self.data_format,
            'dilation_rate': self.dilation_rate,
            'groups': self.groups,
            'activation': activations.serialize(self.activation),
            'use_bias': self.use_bias,
            'kernel_initializer': initializers.serialize(self.kernel_initializer),
            'bias_initializer': initializers.serialize(self.bias_initializer),
            'kernel_regularizer': regularizers.serialize(self.kernel_regularizer),
            'bias_regularizer': regularizers.serialize(self.bias_regularizer),
            'activity_regularizer': regularizers.serialize(self.activity_regularizer),
            'kernel_constraint': constraints.serialize(self.kernel_constraint),
            'bias_constraint': constraints.serialize(self.bias_constraint),
        })
        return config


class Conv1D(Conv):
    __paths__ = ('keras.layers.Conv1D', 'keras.layers.Convolution1D', 'keras.src.layers.convolutional.conv1d.Conv1D')

    def __init__(self, filters, kernel_size, **kwargs):
        super().__init__(rank=1, filters=filters, kernel_size=kernel_size, **kwargs)


class Conv2D(Conv):
    __paths__ = ('keras.layers.Conv2D', 'keras.layers.Convolution2D', 'keras.src.layers.convolutional.conv2d.Conv2D')

    def __init__(self, filters, kernel_size, **kwargs):
        super().__init__(rank=2, filters=filters, kernel_size=kernel_size, **kwargs)


class Activation(Layer):
    __paths__ = ('keras.layers.Activation', 'keras.src.layers.core.activation.Activation')

    def __init__(self, activation, **kwargs):
        super().__init__(**kwargs)
        self.activation = activations.get(activation)

    def call(self, inputs):
        return self.activation(inputs)

    def get_config(self):
        config = super().get_config()
        config.update({'activation': activations.serialize(self.activation)})
        return config


class ReLU(Layer):
    __paths__ = ('keras.layers.ReLU',)

    def __init__(self, max_value=None, negative_slope=0.0, threshold=0.0, **kwargs):
        super().__init__(**kwargs)
        self.max_value = max_value
        self.negative_slope = negative_slope
        self.threshold = threshold

    def call(self, inputs):
        if self.max_value is None and self.negative_slope == 0 and self.threshold == 0:
            return tf.nn.relu(inputs)
        return _sa_uninterpreted('ReLU', inputs, self.max_value, self.negative_slope, self.threshold)


class LeakyReLU(Layer):
    __paths__ = ('keras.layers.LeakyReLU',)

    def __init__(self, alpha=0.3, **kwargs):
        super().__init__(**kwargs)
        self.alpha = alpha

    def call(self, inputs):
        return _sa_uninterpreted('LeakyReLU', inputs, self.alpha)


class Softmax(Layer):
    __paths__ = ('keras.layers.Softmax',)

    def __init__(self, axis=-1, **kwargs):
        super().__init__(**kwargs)
        self.axis = axis

    def call(self, inputs):
        return _sa_uninterpreted('Softmax', inputs, self.axis)


class _Merge(Layer):
    __paths__ = ('keras.src.layers.merging.base_merge._Merge',)

    def call(self, inputs):
        return self._merge_function(inputs)

    def compute_output_shape(self, input_shape):
        return input_shape[0]


class Add(_Merge):
    __paths__ = ('keras.layers.Add',)

    def _merge_function(self, inputs):
        z = inputs[0]
        for y in inputs[1:]:
            z = z + y
        return z


class Subtract(_Merge):
    __paths__ = ('keras.layers.Subtract',)

    def _merge_function(self, inputs):
        return inputs[0] - inputs[1]


class Multiply(_Merge):
    __paths__ = ('keras.layers.Multiply',)

    def _merge_function(self, inputs):
        z = inputs[0]
        for y in inputs[1:]:
            z = z * y
        return z


class Average(_Merge):
    __paths__ = ('keras.layers.Average',)

    def _merge_function(self, inputs):
        z = inputs[0]
        for y in inputs[1:]:
            z = z + y
        return z / len(inputs)


class Maximum(_Merge):
    __paths__ = ('keras.layers.Maximum',)

    def _merge_function(self, inputs):
        z = inputs[0]
        for y in inputs[1:]:
            z = tf.maximum(z, y)
        return z


class Minimum(_Merge):
    __paths__ = ('keras.layers.Minimum',)

    def _merge_function(self, inputs):
        z = inputs[0]
        for y in inputs[1:]:
            z = tf.minimum(z, y)
        return z


class Dot(_Merge):
    __paths__ = ('keras.layers.Dot',)


class Concatenate(_Merge):
    __paths__ = ('keras.layers.Concatenate', 'keras.src.layers.merging.concatenate.Concatenate')

    def __init__(self, axis=-1, **kwargs):
        super().__init__(**kwargs)
        self.axis = axis

    def _merge_function(self, inputs):
        return tf.concat(inputs, axis=self.axis)

    def compute_output_shape(self, input_shape):
        return _sa_concat_shape(input_shape, self.axis)

    def get_config(self):
        config = super().get_config()
        config.update({'axis': self.axis})
        return config


class Pooling1D(Layer):
    __paths__ = ('keras.src.layers.pooling.base_pooling1d.Pooling1D',)

    def __init__(self, pool_function, pool_size, strides, padding='valid', data_format='channels_last', name=None, **kwargs):
        super().__init__(name=name, **kwargs)
        self.pool_function = pool_function
        self.pool_size = _sa_norm_tuple(pool_size, 1)
        self.strides = _sa_norm_tuple(pool_size if strides is None else strides, 1)
        self.padding = padding
        self.data_format = 'channels_last' if data_format is None else data_format

    def compute_output_shape(self, input_shape):
        return _sa_pool_shape(self, input_shape)

    def call(self, inputs):
        return _sa_pool(self.pool_function, inputs, self.pool_size, self.strides, self.padding, self.data_format)

    def get_config(self):
        config = super().get_config()
        config.update({'strides': self.strides, 'pool_size': self.pool_size, 'padding': self.padding, 'data_format': self.data_format})
        return config


class Pooling2D(Layer):
    __paths__ = ('keras.src.layers.pooling.base_pooling2d.Pooling2D',)

    def __init__(self, pool_function, pool_size, strides, padding='valid', data_format=None, name=None, **kwargs):
        super().__init__(name=name, **kwargs)
        self.pool_function = pool_function
        self.pool_size = _sa_norm_tuple(pool_size, 2)
        self.strides = _sa_norm_tuple(pool_size if strides is None else strides, 2)
        self.padding = padding
        self.data_format = 'channels_last' if data_format is None else data_format

    def compute_output_shape(self, input_shape):
        return _sa_pool_shape(self, input_shape)

    def call(self, inputs):
        return _sa_pool(self.pool_function, inputs, self.pool_size, self.strides, self.padding, self.data_format)

    def get_config(self):
        config = super().get_config()
        config.update({'strides': self.strides, 'pool_size': self.pool_size, 'padding': self.padding, 'data_format': self.data_format})
        return config


class Pooling3D(Layer):
    __paths__ = ('keras.src.layers.pooling.base_pooling3d.Pooling3D',)


class MaxPooling1D(Pooling1D):
    __paths__ = ('keras.layers.MaxPooling1D', 'keras.layers.MaxPool1D')

    def __init__(self, pool_size=2, strides=None, padding='valid', data_format='channels_last', **kwargs):
        super().__init__('max', pool_size=pool_size, strides=strides, padding=padding, data_format=data_format, **kwargs)


class AveragePooling1D(Pooling1D):
    __paths__ = ('keras.layers.AveragePooling1D', 'keras.layers.AvgPool1D')

    def __init__(self, pool_size=2, strides=None, padding='valid', data_format='channels_last', **kwargs):
        super().__init__('avg', pool_size=pool_size, strides=strides, padding=padding, data_format=data_format, **kwargs)


class MaxPooling2D(Pooling2D):
    __paths__ = ('keras.layers.MaxPooling2D', 'keras.layers.MaxPool2D')

    def __init__(self, pool_size=(2, 2), strides=None, padding='valid', data_format=None, **kwargs):
        super().__init__('max', pool_size=pool_size, strides=strides, padding=padding, data_format=data_format, **kwargs)


class AveragePooling2D(Pooling2D):
    __paths__ = ('keras.layers.AveragePooling2D', 'keras.layers.AvgPool2D')

    def __init__(self, pool_size=(2, 2), strides=None, padding='valid', data_format=None, **kwargs):
        super().__init__('avg', pool_size=pool_size, strides=strides, padding=padding, data_format=data_format, **kwargs)


class MaxPooling3D(Pooling3D):
    __paths__ = ('keras.layers.MaxPooling3D', 'keras.layers.MaxPool3D')


class AveragePooling3D(Pooling3D):
    __paths__ = ('keras.layers.AveragePooling3D', 'keras.layers.AvgPool3D')


class Reshape(Layer):
    __paths__ = ('keras.layers.Reshape',)

    def __init__(self, target_shape, **kwargs):
        super().__init__(**kwargs)
        self.target_shape = tuple(target_shape)

    def compute_output_shape(self, input_shape):
        return _sa_reshape_shape(input_shape, self.target_shape)

    def call(self, inputs):
        return tf.reshape(inputs, (tf.shape(inputs)[0],) + self.target_shape)

    def get_config(self):
        config = super().get_config()
        config.update({'target_shape': self.target_shape})
        return config


class Flatten(Layer):
    __paths__ = ('keras.layers.Flatten',)

    def __init__(self, data_format=None, **kwargs):
        super().__init__(**kwargs)
        self.data_format = 'channels_last' if data_format is None else data_format

    def compute_output_shape(self, input_shape):
        return _sa_flat_shape(input_shape)

    def call(self, inputs):
        if self.data_format == 'channels_first' and len(inputs.shape) > 1:
            inputs = tf.transpose(inputs, [0] + list(range(2, len(inputs.shape))) + [1])
        return tf.reshape(inputs, (inputs.shape[0], -1))

    def get_config(self):
        config = super().get_config()
        config.update({'data_format': self.data_format})
        return config


class Permute(Layer):
    __paths__ = ('keras.layers.Permute',)

    def __init__(self, dims, **kwargs):
        super().__init__(**kwargs)
        self.dims = tuple(dims)

    def compute_output_shape(self, input_shape):
        return (input_shape[0],) + tuple(input_shape[d] for d in self.dims)

    def call(self, inputs):
        return tf.transpose(inputs, perm=(0,) + self.dims)

    def get_config(self):
        config = super().get_config()
        config.update({'dims': self.dims})
        return config


class Dropout(Layer):
    __paths__ = ('keras.layers.Dropout',)

    def __init__(self, rate, noise_shape=None, seed=None, **kwargs):
        super().__init__(**kwargs)
        self.rate = rate
        self.noise_shape = noise_shape
        self.seed = seed

    def get_config(self):
        config = super().get_config()
        config.update({'rate': self.rate, 'noise_shape': self.noise_shape, 'seed': self.seed})
        return config


class BatchNormalization(Layer):
    __paths__ = ('keras.layers.BatchNormalization',)


class DepthwiseConv2D(Conv):
    __paths__ = ('keras.layers.DepthwiseConv2D', 'keras.layers.DepthwiseConvolution2D')


class MultiHeadAttention(Layer):
    __paths__ = ('keras.layers.MultiHeadAttention',)


class Model(Layer):
    __paths__ = ('keras.Model', 'keras.src.engine.training.Model', 'keras.src.engine.functional.Functional')

    def __init__(self, inputs=None, outputs=None, name=None, **kwargs):
        super().__init__(name=name, **kwargs)
        self.inputs = _as_list(inputs)
        self.outputs = _as_list(outputs)
        self.layers = _sa_collect_layers(self.outputs, self.inputs)
        self.built = True
        self._nested = True

    def call(self, inputs, training=None, mask=None):
        vals = {t.node: v for t, v in zip(self.inputs, _as_list(inputs))}
        outs = [_graph_value(t, vals) for t in self.outputs]
        return outs[0] if len(outs) == 1 else outs

    def compute_output_shape(self, input_shape):
        s = [t.shape for t in self.outputs]
        return s[0] if len(s) == 1 else s


class Sequential(Model):
    __paths__ = ('keras.models.Sequential', 'keras.src.engine.sequential.Sequential')


def _graph_value(t, vals):
    n = t.node
    if n not in vals:
        xs = [_graph_value(u, vals) for u in n.keras_inputs]
        vals[n] = n.layer(xs[0] if len(xs) == 1 else xs)
    v = vals[n]
    return v[t._keras_history.tensor_index] if isinstance(v, (list, tuple)) else v


def _as_list(x):
    if x is None:
        return []
    return list(x) if isinstance(x, (list, tuple)) else [x]


def Input(shape=None, **kwargs):
    l = InputLayer(input_shape=shape)
    n = Node(l, None)
    s = (None,) + tuple(shape)
    n.output_shape = s
    l._inbound_nodes.append(n)
    n.outputs = KerasTensor(s, n)
    return n.outputs


class Callback:
    __paths__ = ('keras.callbacks.Callback',)

    def __init__(self):
        self.model = None
        self.params = None

    def set_model(self, model):
        self.model = model
