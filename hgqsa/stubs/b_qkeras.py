# qkeras: quantizer classes are configuration objects here, layers are keras layers with quantizers.
import tensorflow as tf
from keras import activations
from keras import layers as kl
from keras.src.layers.convolutional.base_conv import Conv


class BaseQuantizer:
    __paths__ = ('qkeras.quantizers.BaseQuantizer', 'qkeras.BaseQuantizer')

    def __call__(self, x):
        return _sa_uninterpreted('quantizer', self, x)


class quantized_bits(BaseQuantizer):
    __paths__ = ('qkeras.quantizers.quantized_bits', 'qkeras.quantized_bits')

    def __init__(self, bits=8, integer=0, symmetric=0, keep_negative=True, alpha=None, use_stochastic_rounding=False, scale_axis=None, qnoise_factor=1.0):
        self.bits = bits
        self.integer = integer
        self.symmetric = symmetric
        self.keep_negative = keep_negative
        self.alpha = alpha


class quantized_relu(BaseQuantizer):
    __paths__ = ('qkeras.quantizers.quantized_relu', 'qkeras.quantized_relu')

    def __init__(self, bits=8, integer=0, use_sigmoid=0, negative_slope=0.0, use_stochastic_rounding=False, relu_upper_bound=None, is_quantized_clip=True, qnoise_factor=1.0):
        self.bits = bits
        self.integer = integer
        self.use_sigmoid = use_sigmoid
        self.negative_slope = negative_slope


class binary(BaseQuantizer):
    __paths__ = ('qkeras.quantizers.binary', 'qkeras.binary')

    def __init__(self, use_01=False, alpha=None, use_stochastic_rounding=False):
        self.use_01 = use_01
        self.alpha = alpha


class stochastic_binary(binary):
    __paths__ = ('qkeras.quantizers.stochastic_binary', 'qkeras.stochastic_binary')


class ternary(BaseQuantizer):
    __paths__ = ('qkeras.quantizers.ternary', 'qkeras.ternary')

    def __init__(self, alpha=None, threshold=None, use_stochastic_rounding=False, number_of_unrolls=5):
        self.alpha = alpha
        self.threshold = threshold


class stochastic_ternary(ternary):
    __paths__ = ('qkeras.quantizers.stochastic_ternary', 'qkeras.stochastic_ternary')


class quantized_po2(BaseQuantizer):
    __paths__ = ('qkeras.quantizers.quantized_po2', 'qkeras.quantized_po2')

    def __init__(self, bits=8, max_value=None):
        self.bits = bits


class quantized_relu_po2(BaseQuantizer):
    __paths__ = ('qkeras.quantizers.quantized_relu_po2', 'qkeras.quantized_relu_po2')

    def __init__(self, bits=8, max_value=None):
        self.bits = bits


class QActivation(kl.Layer):
    __paths__ = ('qkeras.QActivation', 'qkeras.qlayers.QActivation')

    def __init__(self, activation, **kwargs):
        super().__init__(**kwargs)
        self.activation = activation
        self.quantizer = activation

    def call(self, inputs):
        return self.quantizer(inputs)

    def get_config(self):
        config = super().get_config()
        config.update({'activation': self.activation})
        return config


class QDense(kl.Dense):
    __paths__ = ('qkeras.QDense', 'qkeras.qlayers.QDense')

    def __init__(self, units, activation=None, use_bias=True, kernel_quantizer=None, bias_quantizer=None, kernel_range=None, bias_range=None, **kwargs):
        self.kernel_range = kernel_range
        self.bias_range = bias_range
        self.kernel_quantizer = kernel_quantizer
        self.bias_quantizer = bias_quantizer
        self.kernel_quantizer_internal = kernel_quantizer
        self.bias_quantizer_internal = bias_quantizer
        self.quantizers = [kernel_quantizer, bias_quantizer]
        super().__init__(units=units, activation=activation, use_bias=use_bias, **kwargs)

    def call(self, inputs):
        k = self.kernel_quantizer_internal(self.kernel) if self.kernel_quantizer else self.kernel
        z = tf.matmul(inputs, k)
        if self.use_bias:
            b = self.bias_quantizer_internal(self.bias) if self.bias_quantizer else self.bias
            z = tf.nn.bias_add(z, b)
        return self.activation(z)

    def get_config(self):
        config = super().get_config()
        config.update({'kernel_quantizer': self.kernel_quantizer_internal, 'bias_quantizer': self.bias_quantizer_internal, 'kernel_range': self.kernel_range, 'bias_range': self.bias_range})
        return config


class _QConv(Conv):
    def __init__(self, rank, filters, kernel_size, activation=None, use_bias=True, kernel_quantizer=None, bias_quantizer=None, kernel_range=None, bias_range=None, **kwargs):
        self.kernel_range = kernel_range
        self.bias_range = bias_range
        self.kernel_quantizer = kernel_quantizer
        self.bias_quantizer = bias_quantizer
        self.kernel_quantizer_internal = kernel_quantizer
        self.bias_quantizer_internal = bias_quantizer
        self.quantizers = [kernel_quantizer, bias_quantizer]
        super().__init__(rank=rank, filters=filters, kernel_size=kernel_size, activation=activation, use_bias=use_bias, **kwargs)

    def call(self, inputs):
        k = self.kernel_quantizer_internal(self.kernel) if self.kernel_quantizer else self.kernel
        z = self.convolution_op(inputs, k)
        if self.use_bias:
            b = self.bias_quantizer_internal(self.bias) if self.bias_quantizer else self.bias
            z = tf.nn.bias_add(z, b, data_format=self._tf_data_format)
        return self.activation(z)

    def get_config(self):
        config = super().get_config()
        config.update({'kernel_quantizer': self.kernel_quantizer_internal, 'bias_quantizer': self.bias_quantizer_internal, 'kernel_range': self.kernel_range, 'bias_range': self.bias_range})
        return config


class QConv1D(_QConv):
    __paths__ = ('qkeras.QConv1D', 'qkeras.qconvolutional.QConv1D')

    def __init__(self, filters, kernel_size, **kwargs):
        super().__init__(rank=1, filters=filters, kernel_size=kernel_size, **kwargs)


class QConv2D(_QConv):
    __paths__ = ('qkeras.QConv2D', 'qkeras.qconvolutional.QConv2D')

    def __init__(self, filters, kernel_size, **kwargs):
        super().__init__(rank=2, filters=filters, kernel_size=kernel_size, **kwargs)
