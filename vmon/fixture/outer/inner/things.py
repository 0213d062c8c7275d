"""Objects which parameters refer to; every call is recorded."""
CALLS = []

NUMBER = 42
WORD = "a word"
NOTHING = None
LIST = [1, 2, 3]


class Product:
    def __init__(self, how=None, params=None):
        self.how, self.params = how, params


class Built(Product):
    """Has a creation method."""

    @staticmethod
    def from_parameters(params):
        CALLS.append(("Built.from_parameters", params))
        return Built("from_parameters", params)

    def __init__(self, how="constructor", params=None):
        super().__init__(how, params)


class BuiltByClass(Product):
    @classmethod
    def from_parameters(cls, params):
        CALLS.append((cls.__name__ + ".from_parameters", params))
        return cls("from_parameters", params)


class Inheriting(BuiltByClass):
    pass


class Plain(Product):
    """Has no creation method."""

    def __init__(self):
        CALLS.append(("Plain", None))
        super().__init__("constructor")

    @staticmethod
    def nested(params):
        CALLS.append(("Plain.nested", params))
        return Product("nested", params)


class Lenient(Product):
    """Has no creation method, and could be given something, but must not be."""

    def __init__(self, how="constructor", params=None, *more, **others):
        CALLS.append(("Lenient", params if params is not None else more or others or None))
        super().__init__(how, params)


def function(params):
    CALLS.append(("function", params))
    return Product("function", params)


def number(params):
    CALLS.append(("number", params))
    return len(params.as_nested_dicts())


def falsy(params):
    CALLS.append(("falsy", params))
    return 0


class CallableObject:
    def __call__(self, params):
        CALLS.append(("callable_object", params))
        return Product("callable_object", params)


callable_object = CallableObject()


class CallableMaker:
    """Only a class's creation method makes a difference."""

    def __call__(self, params):
        CALLS.append(("callable_maker", params))
        return Product("callable_maker", params)

    def from_parameters(self, params):
        CALLS.append(("CallableMaker.from_parameters", params))
        return Product("from_parameters of an object", params)


callable_maker = CallableMaker()


class Boom(Exception):
    pass


def failing(params):
    CALLS.append(("failing", params))
    raise Boom()


class Failing:
    @staticmethod
    def from_parameters(params):
        raise Boom()


not_callable = 5
